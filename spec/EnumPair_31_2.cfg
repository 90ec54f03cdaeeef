SPECIFICATION Spec
CONSTANTS Shape <- Shape31 Bytes = {97, 98} Spare = 99 WordLen = 2 Exchanges = {}
