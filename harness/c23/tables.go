package c23

// The encodings of ISO 32000-1, Annex D, by character code; 0 for a code that is not defined, or that
// readers treat differently (spaces and hyphens at a second code).

var winAnsi = [256]rune{
	32: 0x20, 33: 0x21, 34: 0x22, 35: 0x23, 36: 0x24, 37: 0x25, 38: 0x26, 39: 0x27, 40: 0x28, 41: 0x29, 42: 0x2A, 43: 0x2B, 44: 0x2C, 45: 0x2D, 46: 0x2E, 47: 0x2F,
	48: 0x30, 49: 0x31, 50: 0x32, 51: 0x33, 52: 0x34, 53: 0x35, 54: 0x36, 55: 0x37, 56: 0x38, 57: 0x39, 58: 0x3A, 59: 0x3B, 60: 0x3C, 61: 0x3D, 62: 0x3E, 63: 0x3F,
	64: 0x40, 65: 0x41, 66: 0x42, 67: 0x43, 68: 0x44, 69: 0x45, 70: 0x46, 71: 0x47, 72: 0x48, 73: 0x49, 74: 0x4A, 75: 0x4B, 76: 0x4C, 77: 0x4D, 78: 0x4E, 79: 0x4F,
	80: 0x50, 81: 0x51, 82: 0x52, 83: 0x53, 84: 0x54, 85: 0x55, 86: 0x56, 87: 0x57, 88: 0x58, 89: 0x59, 90: 0x5A, 91: 0x5B, 92: 0x5C, 93: 0x5D, 94: 0x5E, 95: 0x5F,
	96: 0x60, 97: 0x61, 98: 0x62, 99: 0x63, 100: 0x64, 101: 0x65, 102: 0x66, 103: 0x67, 104: 0x68, 105: 0x69, 106: 0x6A, 107: 0x6B, 108: 0x6C, 109: 0x6D, 110: 0x6E, 111: 0x6F,
	112: 0x70, 113: 0x71, 114: 0x72, 115: 0x73, 116: 0x74, 117: 0x75, 118: 0x76, 119: 0x77, 120: 0x78, 121: 0x79, 122: 0x7A, 123: 0x7B, 124: 0x7C, 125: 0x7D, 126: 0x7E,
	128: 0x20AC, 130: 0x201A, 131: 0x192, 132: 0x201E, 133: 0x2026, 134: 0x2020, 135: 0x2021, 136: 0x2C6, 137: 0x2030, 138: 0x160, 139: 0x2039, 140: 0x152, 142: 0x17D,
	145: 0x2018, 146: 0x2019, 147: 0x201C, 148: 0x201D, 149: 0x2022, 150: 0x2013, 151: 0x2014, 152: 0x2DC, 153: 0x2122, 154: 0x161, 155: 0x203A, 156: 0x153, 158: 0x17E, 159: 0x178,
	161: 0xA1, 162: 0xA2, 163: 0xA3, 164: 0xA4, 165: 0xA5, 166: 0xA6, 167: 0xA7, 168: 0xA8, 169: 0xA9, 170: 0xAA, 171: 0xAB, 172: 0xAC, 174: 0xAE, 175: 0xAF,
	176: 0xB0, 177: 0xB1, 178: 0xB2, 179: 0xB3, 180: 0xB4, 181: 0xB5, 182: 0xB6, 183: 0xB7, 184: 0xB8, 185: 0xB9, 186: 0xBA, 187: 0xBB, 188: 0xBC, 189: 0xBD, 190: 0xBE, 191: 0xBF,
	192: 0xC0, 193: 0xC1, 194: 0xC2, 195: 0xC3, 196: 0xC4, 197: 0xC5, 198: 0xC6, 199: 0xC7, 200: 0xC8, 201: 0xC9, 202: 0xCA, 203: 0xCB, 204: 0xCC, 205: 0xCD, 206: 0xCE, 207: 0xCF,
	208: 0xD0, 209: 0xD1, 210: 0xD2, 211: 0xD3, 212: 0xD4, 213: 0xD5, 214: 0xD6, 215: 0xD7, 216: 0xD8, 217: 0xD9, 218: 0xDA, 219: 0xDB, 220: 0xDC, 221: 0xDD, 222: 0xDE, 223: 0xDF,
	224: 0xE0, 225: 0xE1, 226: 0xE2, 227: 0xE3, 228: 0xE4, 229: 0xE5, 230: 0xE6, 231: 0xE7, 232: 0xE8, 233: 0xE9, 234: 0xEA, 235: 0xEB, 236: 0xEC, 237: 0xED, 238: 0xEE, 239: 0xEF,
	240: 0xF0, 241: 0xF1, 242: 0xF2, 243: 0xF3, 244: 0xF4, 245: 0xF5, 246: 0xF6, 247: 0xF7, 248: 0xF8, 249: 0xF9, 250: 0xFA, 251: 0xFB, 252: 0xFC, 253: 0xFD, 254: 0xFE, 255: 0xFF,
}

var macRoman = [256]rune{
	32: 0x20, 33: 0x21, 34: 0x22, 35: 0x23, 36: 0x24, 37: 0x25, 38: 0x26, 39: 0x27, 40: 0x28, 41: 0x29, 42: 0x2A, 43: 0x2B, 44: 0x2C, 45: 0x2D, 46: 0x2E, 47: 0x2F,
	48: 0x30, 49: 0x31, 50: 0x32, 51: 0x33, 52: 0x34, 53: 0x35, 54: 0x36, 55: 0x37, 56: 0x38, 57: 0x39, 58: 0x3A, 59: 0x3B, 60: 0x3C, 61: 0x3D, 62: 0x3E, 63: 0x3F,
	64: 0x40, 65: 0x41, 66: 0x42, 67: 0x43, 68: 0x44, 69: 0x45, 70: 0x46, 71: 0x47, 72: 0x48, 73: 0x49, 74: 0x4A, 75: 0x4B, 76: 0x4C, 77: 0x4D, 78: 0x4E, 79: 0x4F,
	80: 0x50, 81: 0x51, 82: 0x52, 83: 0x53, 84: 0x54, 85: 0x55, 86: 0x56, 87: 0x57, 88: 0x58, 89: 0x59, 90: 0x5A, 91: 0x5B, 92: 0x5C, 93: 0x5D, 94: 0x5E, 95: 0x5F,
	96: 0x60, 97: 0x61, 98: 0x62, 99: 0x63, 100: 0x64, 101: 0x65, 102: 0x66, 103: 0x67, 104: 0x68, 105: 0x69, 106: 0x6A, 107: 0x6B, 108: 0x6C, 109: 0x6D, 110: 0x6E, 111: 0x6F,
	112: 0x70, 113: 0x71, 114: 0x72, 115: 0x73, 116: 0x74, 117: 0x75, 118: 0x76, 119: 0x77, 120: 0x78, 121: 0x79, 122: 0x7A, 123: 0x7B, 124: 0x7C, 125: 0x7D, 126: 0x7E,
	128: 0xC4, 129: 0xC5, 130: 0xC7, 131: 0xC9, 132: 0xD1, 133: 0xD6, 134: 0xDC, 135: 0xE1, 136: 0xE0, 137: 0xE2, 138: 0xE4, 139: 0xE3, 140: 0xE5, 141: 0xE7, 142: 0xE9, 143: 0xE8,
	144: 0xEA, 145: 0xEB, 146: 0xED, 147: 0xEC, 148: 0xEE, 149: 0xEF, 150: 0xF1, 151: 0xF3, 152: 0xF2, 153: 0xF4, 154: 0xF6, 155: 0xF5, 156: 0xFA, 157: 0xF9, 158: 0xFB, 159: 0xFC,
	160: 0x2020, 161: 0xB0, 162: 0xA2, 163: 0xA3, 164: 0xA7, 165: 0x2022, 166: 0xB6, 167: 0xDF, 168: 0xAE, 169: 0xA9, 170: 0x2122, 171: 0xB4, 172: 0xA8, 174: 0xC6, 175: 0xD8,
	177: 0xB1, 180: 0xA5, 181: 0xB5, 187: 0xAA, 188: 0xBA, 190: 0xE6, 191: 0xF8,
	192: 0xBF, 193: 0xA1, 194: 0xAC, 196: 0x192, 199: 0xAB, 200: 0xBB, 201: 0x2026, 203: 0xC0, 204: 0xC3, 205: 0xD5, 206: 0x152, 207: 0x153,
	208: 0x2013, 209: 0x2014, 210: 0x201C, 211: 0x201D, 212: 0x2018, 213: 0x2019, 214: 0xF7, 216: 0xFF, 217: 0x178, 218: 0x2044, 220: 0x2039, 221: 0x203A, 222: 0xFB01, 223: 0xFB02,
	224: 0x2021, 225: 0xB7, 226: 0x201A, 227: 0x201E, 228: 0x2030, 229: 0xC2, 230: 0xCA, 231: 0xC1, 232: 0xCB, 233: 0xC8, 234: 0xCD, 235: 0xCE, 236: 0xCF, 237: 0xCC, 238: 0xD3, 239: 0xD4,
	241: 0xD2, 242: 0xDA, 243: 0xDB, 244: 0xD9, 245: 0x131, 246: 0x2C6, 247: 0x2DC, 248: 0xAF, 249: 0x2D8, 250: 0x2D9, 251: 0x2DA, 252: 0xB8, 253: 0x2DD, 254: 0x2DB, 255: 0x2C7,
}

var standard = [256]rune{
	32: 0x20, 33: 0x21, 34: 0x22, 35: 0x23, 36: 0x24, 37: 0x25, 38: 0x26, 39: 0x2019, 40: 0x28, 41: 0x29, 42: 0x2A, 43: 0x2B, 44: 0x2C, 45: 0x2D, 46: 0x2E, 47: 0x2F,
	48: 0x30, 49: 0x31, 50: 0x32, 51: 0x33, 52: 0x34, 53: 0x35, 54: 0x36, 55: 0x37, 56: 0x38, 57: 0x39, 58: 0x3A, 59: 0x3B, 60: 0x3C, 61: 0x3D, 62: 0x3E, 63: 0x3F,
	64: 0x40, 65: 0x41, 66: 0x42, 67: 0x43, 68: 0x44, 69: 0x45, 70: 0x46, 71: 0x47, 72: 0x48, 73: 0x49, 74: 0x4A, 75: 0x4B, 76: 0x4C, 77: 0x4D, 78: 0x4E, 79: 0x4F,
	80: 0x50, 81: 0x51, 82: 0x52, 83: 0x53, 84: 0x54, 85: 0x55, 86: 0x56, 87: 0x57, 88: 0x58, 89: 0x59, 90: 0x5A, 91: 0x5B, 92: 0x5C, 93: 0x5D, 94: 0x5E, 95: 0x5F,
	96: 0x2018, 97: 0x61, 98: 0x62, 99: 0x63, 100: 0x64, 101: 0x65, 102: 0x66, 103: 0x67, 104: 0x68, 105: 0x69, 106: 0x6A, 107: 0x6B, 108: 0x6C, 109: 0x6D, 110: 0x6E, 111: 0x6F,
	112: 0x70, 113: 0x71, 114: 0x72, 115: 0x73, 116: 0x74, 117: 0x75, 118: 0x76, 119: 0x77, 120: 0x78, 121: 0x79, 122: 0x7A, 123: 0x7B, 124: 0x7C, 125: 0x7D, 126: 0x7E,

	161: 0xA1, 162: 0xA2, 163: 0xA3, 164: 0x2044, 165: 0xA5, 166: 0x192, 167: 0xA7, 168: 0xA4, 169: 0x27, 170: 0x201C, 171: 0xAB, 172: 0x2039, 173: 0x203A, 174: 0xFB01, 175: 0xFB02,
	177: 0x2013, 178: 0x2020, 179: 0x2021, 180: 0xB7, 182: 0xB6, 183: 0x2022, 184: 0x201A, 185: 0x201E, 186: 0x201D, 187: 0xBB, 188: 0x2026, 189: 0x2030, 191: 0xBF,
	193: 0x60, 194: 0xB4, 195: 0x2C6, 196: 0x2DC, 197: 0xAF, 198: 0x2D8, 199: 0x2D9, 200: 0xA8, 202: 0x2DA, 203: 0xB8, 205: 0x2DD, 206: 0x2DB, 207: 0x2C7,
	208: 0x2014,
	225: 0xC6, 227: 0xAA, 232: 0x141, 233: 0xD8, 234: 0x152, 235: 0xBA,
	241: 0xE6, 245: 0x131, 248: 0x142, 249: 0xF8, 250: 0x153, 251: 0xDF,
}

// The glyph names of the Latin character set of ISO 32000-1, Annex D, and their characters.
var latinNames = []string{
	"braceleft", "period", "tilde", "ae", "Oslash", "ecircumflex", "bracketright", "r", "l", "ntilde",
	"quotesingle", "periodcentered", "circumflex", "K", "divide", "Ecircumflex", "p", "Oacute", "parenright", "quotedblright",
	"breve", "Ocircumflex", "yen", "Eacute", "OE", "registered", "colon", "d", "Odieresis", "ordmasculine",
	"semicolon", "E", "oslash", "plusminus", "twosuperior", "F", "aacute", "caron", "one", "M",
	"G", "paragraph", "c", "iacute", "b", "e", "dollar", "Ntilde", "minus", "Uacute",
	"quoteright", "braceright", "Euro", "ellipsis", "cent", "Ograve", "underscore", "dotlessi", "Z", "Edieresis",
	"Eth", "ograve", "ocircumflex", "four", "Y", "quotesinglbase", "Ccedilla", "C", "Adieresis", "N",
	"idieresis", "Iacute", "cedilla", "plus", "exclam", "Acircumflex", "egrave", "P", "nine", "guilsinglleft",
	"uacute", "m", "endash", "u", "f", "macron", "Udieresis", "i", "fl", "lslash",
	"o", "Scaron", "Zcaron", "guilsinglright", "V", "section", "asciicircum", "adieresis", "yacute", "space",
	"hungarumlaut", "onequarter", "U", "t", "less", "oacute", "fi", "brokenbar", "zero", "seven",
	"S", "asterisk", "oe", "zcaron", "y", "Ucircumflex", "two", "aring", "threesuperior", "quoteleft",
	"ampersand", "ordfeminine", "daggerdbl", "AE", "L", "acircumflex", "H", "Q", "questiondown", "bar",
	"D", "ugrave", "six", "g", "copyright", "n", "h", "Otilde", "J", "guillemotright",
	"q", "I", "currency", "igrave", "comma", "R", "otilde", "dotaccent", "a", "florin",
	"B", "threequarters", "dieresis", "odieresis", "grave", "mu", "asciitilde", "backslash", "Thorn", "guillemotleft",
	"quotedblleft", "greater", "bullet", "x", "atilde", "ogonek", "T", "Idieresis", "onehalf", "k",
	"eacute", "v", "at", "exclamdown", "question", "parenleft", "sterling", "ccedilla", "Ydieresis", "j",
	"w", "emdash", "X", "hyphen", "three", "quotedblbase", "edieresis", "W", "percent", "ucircumflex",
	"Aacute", "icircumflex", "z", "Aring", "Agrave", "trademark", "bracketleft", "Igrave", "multiply", "Yacute",
	"quotedbl", "agrave", "equal", "perthousand", "A", "scaron", "ydieresis", "numbersign", "eight", "degree",
	"Atilde", "fraction", "Icircumflex", "Ugrave", "slash", "dagger", "onesuperior", "five", "eth", "ring",
	"germandbls", "Lslash", "acute", "Egrave", "s", "thorn", "udieresis", "logicalnot", "O",
}

var latinChars = []rune{
	0x7B, 0x2E, 0x2DC, 0xE6, 0xD8, 0xEA, 0x5D, 0x72, 0x6C, 0xF1, 0x27, 0xB7, 0x2C6, 0x4B, 0xF7, 0xCA,
	0x70, 0xD3, 0x29, 0x201D, 0x2D8, 0xD4, 0xA5, 0xC9, 0x152, 0xAE, 0x3A, 0x64, 0xD6, 0xBA, 0x3B, 0x45,
	0xF8, 0xB1, 0xB2, 0x46, 0xE1, 0x2C7, 0x31, 0x4D, 0x47, 0xB6, 0x63, 0xED, 0x62, 0x65, 0x24, 0xD1,
	0x2212, 0xDA, 0x2019, 0x7D, 0x20AC, 0x2026, 0xA2, 0xD2, 0x5F, 0x131, 0x5A, 0xCB, 0xD0, 0xF2, 0xF4, 0x34,
	0x59, 0x201A, 0xC7, 0x43, 0xC4, 0x4E, 0xEF, 0xCD, 0xB8, 0x2B, 0x21, 0xC2, 0xE8, 0x50, 0x39, 0x2039,
	0xFA, 0x6D, 0x2013, 0x75, 0x66, 0xAF, 0xDC, 0x69, 0xFB02, 0x142, 0x6F, 0x160, 0x17D, 0x203A, 0x56, 0xA7,
	0x5E, 0xE4, 0xFD, 0x20, 0x2DD, 0xBC, 0x55, 0x74, 0x3C, 0xF3, 0xFB01, 0xA6, 0x30, 0x37, 0x53, 0x2A,
	0x153, 0x17E, 0x79, 0xDB, 0x32, 0xE5, 0xB3, 0x2018, 0x26, 0xAA, 0x2021, 0xC6, 0x4C, 0xE2, 0x48, 0x51,
	0xBF, 0x7C, 0x44, 0xF9, 0x36, 0x67, 0xA9, 0x6E, 0x68, 0xD5, 0x4A, 0xBB, 0x71, 0x49, 0xA4, 0xEC,
	0x2C, 0x52, 0xF5, 0x2D9, 0x61, 0x192, 0x42, 0xBE, 0xA8, 0xF6, 0x60, 0xB5, 0x7E, 0x5C, 0xDE, 0xAB,
	0x201C, 0x3E, 0x2022, 0x78, 0xE3, 0x2DB, 0x54, 0xCF, 0xBD, 0x6B, 0xE9, 0x76, 0x40, 0xA1, 0x3F, 0x28,
	0xA3, 0xE7, 0x178, 0x6A, 0x77, 0x2014, 0x58, 0x2D, 0x33, 0x201E, 0xEB, 0x57, 0x25, 0xFB, 0xC1, 0xEE,
	0x7A, 0xC5, 0xC0, 0x2122, 0x5B, 0xCC, 0xD7, 0xDD, 0x22, 0xE0, 0x3D, 0x2030, 0x41, 0x161, 0xFF, 0x23,
	0x38, 0xB0, 0xC3, 0x2044, 0xCE, 0xD9, 0x2F, 0x2020, 0xB9, 0x35, 0xF0, 0x2DA, 0xDF, 0x141, 0xB4, 0xC8,
	0x73, 0xFE, 0xFC, 0xAC, 0x4F,
}
