SPECIFICATION Spec
CONSTANTS Shape <- Shape13 Bytes = {97, 98} Spare = 99 WordLen = 3 Exchanges = {}
