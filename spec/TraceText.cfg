SPECIFICATION Spec
VIEW View
CONSTANT TextOf <- GivenText
