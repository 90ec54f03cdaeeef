SPECIFICATION Spec
CONSTANTS Shape <- Shape21 Bytes = {97, 98} Spare = 99 WordLen = 2 Exchanges = {97, 98}
