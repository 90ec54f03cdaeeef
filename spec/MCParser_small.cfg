SPECIFICATION Spec
CONSTANTS Shape <- Shape22 Bytes = {97, 98} Foreign = 0 WordLen = 3 Piece = 2 Input <- InputOf
INVARIANTS AcceptsExactlyTheLanguage TreeIsDerivation ErrorAtFirstImpossibleByte
 StepBound RefusedIffTwoAlternativesCompete NullableMeansDerivesEmpty FirstMeansDerivesPrefix
