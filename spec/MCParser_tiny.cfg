SPECIFICATION FairSpec
CONSTANTS Shape <- Shape21 Bytes = {97, 98} Foreign = 0 WordLen = 3 Piece = 2 Input <- InputOf
INVARIANTS AcceptsExactlyTheLanguage TreeIsDerivation ErrorAtFirstImpossibleByte
 StepBound RefusedIffTwoAlternativesCompete NullableMeansDerivesEmpty FirstMeansDerivesPrefix
PROPERTY Terminates
