SPECIFICATION Spec
VIEW View
CONSTANT Universe = 255
