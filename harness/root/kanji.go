package qrcode

// vxKanjiTab gives, for U+4E00..U+9FFF, the 13-bit value of the character in a Kanji
// segment (ISO/IEC 18004 7.4.6), or 0xffff when JIS X 0208 does not have it. Generated
// from Python's shift_jis codec, independently of golang.org/x/text.
const vxKanjiTab = "" +
	"\x05\xea\x0d\x1a\xff\xff\x0a\x35\xff\xff\xff\xff\xff\xff\x10\x1c\x0b\x24\x09\xcf\x0b\x23\x06\x7a\xff\xff\x0f\x33\x10\x9e\xff\xff\x11\xa0\x06\x0e\xff\xff\xff\xff\x07\x0e\x11\xa1\x0b\xa2\x12\x80\x07\xb5\x0f\x78\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x25\xff\xff\xff\xff\x10\xfc\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x80\xff\xff\xff\xff\xff\xff\x11\xa2\xff\xff\xff\xff\x0d\x06\xff\xff\xff\xff\xff\xff\x11\xa3\x08\x38\xff\xff\xff\xff\xff\xff\x11\xa4\xff\xff\x07\x5b\x0c\xcf\xff\xff\x0a\x65\x11\xa5\xff\xff\xff\xff\x11\xa6\xff\xff\xff\xff\x11\xa7\x0e\x54\xff\xff\x07\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x56\xff\xff\x0e\x21\x08\xc1\x0f\xd2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x28\x11\xa8\x0b\x26\x11\xa9\x06\x73\xff\xff\xff\xff\xff\xff\x08\x23\x08\xee\x10\x67\xff\xff\xff\xff\x13\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xd0\xff\xff\x0e\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x23\xff\xff\x07\x94\xff\xff\x11\xaa\xff\xff\xff\xff\x11\xab\x10\xf9\xff\xff\x10\x9c\x0c\x48\x11\xad\x0a\x16\x0e\x31\xff\xff\x11\xb0\xff\xff\xff\xff\x06\x1d\x08\xdd\xff\xff\x08\xdc\x05\xe4\xff\xff\xff\xff\x11\x6a\x11\x69\xff\xff\x09\x71\x05\x9f\xff\xff\x11\xb1\x11\xb2\x11\xb3\x0f\xd3\x11\xb4\xff\xff\x08\xf0\x05\xe5\x10\x12\xff\xff\x07\xdc\xff\xff\xff\xff\x07\xdd\x07\xde\x0d\x60\x10\xfa\xff\xff\x11\xb5\xff\xff\xff\xff\x11\xb6\xff\xff\xff\xff\x11\xb7\xff\xff\xff\xff\xff\xff\x0b\x6c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x99\x0b\x6d\x11\xbc\xff\xff\x11\xba\xff\xff\x11\xbb\x07\xb7\xff\xff\xff\xff\x09\x61\x06\xae\xff\xff\x11\xb9\x11\xb8\x0f\x67\xff\xff\xff\xff\xff\xff\xff\xff\x09\xe5\x09\xe4\x0c\x7c\x11\xbd\x0f\x34\x0b\xe5\xff\xff\xff\xff\xff\xff\x00\x17\x11\xbe\x11\xc0\xff\xff\xff\xff\xff\xff\x0c\xa3\x11\x1f\x05\xc8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\xbf\x06\x7c\xff\xff\x08\x02\xff\xff\x0d\x07\xff\xff\xff\xff\xff\xff\x08\x8f\x11\xc1\xff\xff\xff\xff\xff\xff\x0e\x43\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\x07\x69\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\xc2\x05\xc9\xff\xff\xff\xff\x08\xde\x07\x6a\x0f\x5a\x0e\xb0\x07\xb8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xaf\xff\xff\x11\xe5\x0d\xa0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x8c\x11\xc4\xff\xff\xff\xff\xff\xff\x0e\xba\xff\xff\x11\x20\xff\xff\x0b\x4c\xff\xff\x09\xe6\xff\xff\x0a\x17\x06\x7e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x4f\xff\xff\xff\xff\x0c\xc1\x11\xc8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xca\x0d\x61\x0a\x9a\x09\x72\x10\x83\xff\xff\x0c\x8c\xff\xff\x06\x7d\xff\xff\x11\xc7\xff\xff\x10\x9d\x11\xc3\x11\xc5\x09\xac\x11\xc6\x13\x83\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\xce\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\xd1\x11\xcf\xff\xff\xff\xff\x06\x80\xff\xff\x0f\x79\x11\xc9\xff\xff\xff\xff\xff\xff\xff\xff\x11\xcd\x08\xf1\xff\xff\xff\xff\x09\xe7\xff\xff\xff\xff\xff\xff\x07\x24\xff\xff\xff\xff\x11\xd2\xff\xff\x11\xca\xff\xff\xff\xff\x11\x21\xff\xff\x0a\x18\xff\xff\x11\xcb\xff\xff\x11\xd0\xff\xff\xff\xff\xff\xff\xff\xff\x11\xd3\xff\xff\x11\xcc\xff\xff\xff\xff\x07\xdf\xff\xff\x05\xcb\xff\xff\xff\xff\x07\xe0\x06\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x84\xff\xff\x10\x19\x0f\x4e\x08\xf2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x4e\x10\xf5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x96\xff\xff\xff\xff\x08\x57\x0c\x63\x06\xa2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xb2\xff\xff\xff\xff\xff\xff\x11\xd7\xff\xff\x11\xdc\x11\xda\xff\xff\xff\xff\x11\xd5\xff\xff\xff\xff\x0c\x6d\x11\xd8\xff\xff\x11\xdb\x11\xd9\xff\xff\x0f\x9b\xff\xff\x11\xd6\xff\xff\x0b\x4d\xff\xff\x10\x13\x11\xdd\x11\xde\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x83\x11\xeb\xff\xff\xff\xff\xff\xff\x0e\x6f\xff\xff\x0f\x15\x11\xe6\xff\xff\x0f\xae\xff\xff\x06\x74\xff\xff\xff\xff\xff\xff\x11\xea\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\xe4\x11\xed\xff\xff\xff\xff\x0c\x31\xff\xff\x08\xc2\xff\xff\x0e\x7b\xff\xff\x17\xc5\xff\xff\x11\xec\x0d\xbc\xff\xff\x11\xe1\xff\xff\x08\xf4\xff\xff\xff\xff\x08\xf3\x11\xdf\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x58\xff\xff\x11\xe7\xff\xff\x0f\xad\x0c\xec\x11\xe3\x08\x91\xff\xff\x11\xe0\x11\xe8\x11\xe2\x11\x0f\x11\xe9\x11\x60\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x24\xff\xff\xff\xff\x08\x90\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\xee\xff\xff\xff\xff\xff\xff\x11\xef\x11\xf3\x05\xcc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x8e\x11\xf2\xff\xff\xff\xff\xff\xff\xff\xff\x11\xf1\x11\xf5\xff\xff\xff\xff\xff\xff\x11\xf4\xff\xff\x0d\x62\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x92\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x43\xff\xff\x0c\x64\x0d\x63\x08\x34\xff\xff\x11\xf7\xff\xff\xff\xff\xff\xff\xff\xff\x07\x95\xff\xff\xff\xff\x11\xf8\xff\xff\xff\xff\xff\xff\xff\xff\x11\xfa\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xd4\xff\xff\xff\xff\xff\xff\x08\x86\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\xd0\x0e\xf5\x11\xf9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x83\x10\xa2\xff\xff\xff\xff\xff\xff\xff\xff\x11\xfc\x12\x02\x11\xfb\x09\x82\xff\xff\x0a\xdd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x58\xff\xff\xff\xff\xff\xff\x12\x03\xff\xff\xff\xff\x08\x0d\xff\xff\xff\xff\xff\xff\x12\x00\x12\x01\xff\xff\xff\xff\x0d\xed\xff\xff\x0c\x5c\xff\xff\x07\xe1\xff\xff\xff\xff\xff\xff\x0f\xec\x12\x04\xff\xff\xff\xff\xff\xff\x10\xfb\xff\xff\xff\xff\xff\xff\x12\x05\xff\xff\xff\xff\xff\xff\xff\xff\x12\x08\xff\xff\x12\x06\xff\xff\x0c\x2d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\x07\x12\x09\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\x0b\xff\xff\xff\xff\xff\xff\x12\x0a\xff\xff\x0f\x86\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\x07\x96\x12\x0d\x12\x0e\xff\xff\x06\x6d\xff\xff\xff\xff\xff\xff\xff\xff\x12\x0c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x72\xff\xff\x12\x11\x12\x10\x12\x0f\xff\xff\x11\xd4\xff\xff\x12\x12\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xde\xff\xff\x12\x13\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x84\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x57\xff\xff\xff\xff\xff\xff\xff\xff\x12\x15\xff\xff\xff\xff\x12\x14\x12\x17\x12\x16\xff\xff\xff\xff\x12\x18\x12\x19\x05\xf2\xff\xff\x08\xb3\x08\x5a\x0a\x9b\x0d\x1b\x07\xe2\x0b\xe6\x08\xf5\xff\xff\x09\x4e\x12\x1b\x10\x46\x0d\xa5\xff\xff\x0a\x19\xff\xff\x12\x1a\xff\xff\x12\x1c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xbd\xff\xff\x07\x15\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\x1d\xff\xff\xff\xff\x0e\x3c\xff\xff\xff\xff\x0c\x13\x12\x1f\x12\x20\x0e\xaa\x08\xf6\x11\x5a\x12\x21\xff\xff\xff\xff\x07\xe4\xff\xff\xff\xff\xff\xff\x0f\x7a\x0c\x74\x08\x2f\x0d\x94\xff\xff\xff\xff\xff\xff\x08\x93\xff\xff\xff\xff\xff\xff\x12\x22\xff\xff\x12\x23\xff\xff\xff\xff\x0e\x20\x06\x3e\xff\xff\xff\xff\x12\x26\x09\xbb\xff\xff\x12\x25\x09\x84\xff\xff\x12\x27\x1a\x2c\x12\x28\x0f\xe0\x12\x29\xff\xff\x12\x2a\x12\x2b\x0b\x27\xff\xff\x0a\x4a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x25\xff\xff\x12\x2e\xff\xff\x12\x2c\x10\x3b\x12\x2d\xff\xff\x0f\x39\x12\x2f\x12\x30\x12\x31\x0d\xbe\xff\xff\xff\xff\xff\xff\x12\x35\x12\x33\x12\x34\x12\x32\x09\xa1\x12\x36\x10\x68\x11\x22\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\x37\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xa6\x12\x38\x0a\xb9\xff\xff\xff\xff\x12\x39\xff\xff\x0d\x1c\x10\xfd\x0d\xc0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\x83\xff\xff\xff\xff\xff\xff\xff\xff\x12\x3a\x1f\x23\x08\x03\xff\xff\xff\xff\x12\x3b\x0f\xfd\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xc8\x0c\xba\xff\xff\x12\x3d\x0e\x22\xff\xff\xff\xff\x12\x3e\xff\xff\xff\xff\x12\x40\x06\xcd\xff\xff\xff\xff\xff\xff\x12\x41\x07\xe5\xff\xff\x0e\x0a\x06\x5a\x0a\xaf\xff\xff\xff\xff\x0e\x9f\x12\x42\xff\xff" +
	"\x0d\xc1\xff\xff\xff\xff\x0b\x6e\x12\x43\xff\xff\x0f\x6a\x0b\xd8\x07\x20\xff\xff\x07\x27\x12\x44\xff\xff\xff\xff\x12\x46\xff\xff\xff\xff\x08\x59\xff\xff\xff\xff\x12\x45\xff\xff\xff\xff\x11\x31\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xc9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xbb\x0f\x8a\xff\xff\x12\x47\xff\xff\x10\xd8\x12\x48\xff\xff\xff\xff\xff\xff\x12\x49\xff\xff\x0d\xde\xff\xff\xff\xff\x12\x4a\xff\xff\xff\xff\x0b\xa7\x09\xbc\x08\x94\x12\x4b\x09\xe8\x09\x4f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x64\x12\x4d\xff\xff\xff\xff\x0c\x65\xff\xff\xff\xff\x09\xad\x12\x4e\x12\x4f\x0c\x0f\xff\xff\x12\x4c\xff\xff\xff\xff\xff\xff\xff\xff\x12\x51\xff\xff\x0f\xd5\xff\xff\xff\xff\xff\xff\xff\xff\x09\x44\xff\xff\xff\xff\x12\x50\xff\xff\xff\xff\xff\xff\xff\xff\x08\x95\x09\x9c\x0e\x8d\xff\xff\xff\xff\xff\xff\x12\x54\x12\x52\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x5b\x0b\x28\x12\x5b\x07\x04\x12\x55\x12\x53\x0c\x2e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\x57\xff\xff\x12\x56\xff\xff\xff\xff\xff\xff\x06\xe3\xff\xff\xff\xff\xff\xff\x08\x80\x12\x5c\x10\xeb\xff\xff\xff\xff\xff\xff\x12\x58\xff\xff\xff\xff\xff\xff\x12\x5d\x12\x5a\xff\xff\x12\x59\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x0d\xff\xff\xff\xff\xff\xff\x08\xf7\x06\x81\xff\xff\xff\xff\x11\x32\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xd5\x0d\xb7\x09\x45\x12\x60\x12\x61\xff\xff\xff\xff\xff\xff\x11\x23\xff\xff\xff\xff\x11\x4a\x12\x63\xff\xff\xff\xff\xff\xff\x08\xf8\xff\xff\xff\xff\x12\x62\xff\xff\x06\xce\xff\xff\xff\xff\x12\x64\xff\xff\x0f\xf5\xff\xff\x0d\x3a\xff\xff\x10\x85\xff\xff\x0f\x97\xff\xff\xff\xff\xff\xff\x12\x65\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xd3\xff\xff\xff\xff\x0d\xee\xff\xff\x12\x66\x07\x28\x10\x31\xff\xff\xff\xff\xff\xff\x0a\xdf\x12\x67\x0f\xa5\x12\x6b\xff\xff\x0b\xa8\x12\x68\x08\x0e\xff\xff\x12\x69\x07\x29\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x4d\x12\x6c\xff\xff\x12\x6d\xff\xff\xff\xff\x12\x6e\x12\x6f\x0a\x59\xff\xff\xff\xff\xff\xff\x08\xf9\x10\x5c" +
	"\xff\xff\x10\x66\x0e\x35\xff\xff\xff\xff\x0f\xaf\x12\x70\xff\xff\x12\x71\xff\xff\xff\xff\xff\xff\xff\xff\x12\x73\xff\xff\x12\x75\x12\x74\xff\xff\xff\xff\xff\xff\xff\xff\x12\x76\x06\x7b\x0f\xeb\xff\xff\x09\xba\x12\x77\xff\xff\xff\xff\x0c\x38\xff\xff\xff\xff\x0a\xe0\x07\xe7\xff\xff\x12\x78\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xd9\xff\xff\xff\xff\xff\xff\xff\xff\x12\x79\xff\xff\x12\x7a\xff\xff\x12\x7b\xff\xff\xff\xff\xff\xff\xff\xff\x12\x7c\x0f\x03\x08\x26\x05\xe3\xff\xff\xff\xff\xff\xff\x0d\xfd\x12\x7d\x0a\x9c\xff\xff\x0b\xe7\xff\xff\x12\x7f\x12\x7e\x0a\xe1\x08\xdf\x12\x81\x0e\xbc\xff\xff\xff\xff\x12\x82\xff\xff\xff\xff\xff\xff\x0e\xda\x0c\x72\x0c\xac\x07\xe6\xff\xff\xff\xff\x0e\x2c\x0c\xd0\xff\xff\x0e\x8e\xff\xff\x0f\xed\xff\xff\x12\x84\xff\xff\x0b\xe8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x54\xff\xff\xff\xff\x12\x85\xff\xff\xff\xff\xff\xff\xff\xff\x12\x86\x06\x0b\x05\xf3\x07\x6b\xff\xff\x0c\x66\x07\xb0\x10\xd1\xff\xff\x12\x89\x06\x75\xff\xff\xff\xff\x12\x88\xff\xff\xff\xff\xff\xff\x07\xe8\xff\xff\xff\xff\x12\x8a\xff\xff\x10\x6f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\x8b\xff\xff\x11\x10\xff\xff\x08\xfa\xff\xff\xff\xff\xff\xff\xff\xff\x08\xb4\x12\x8c\xff\xff\xff\xff\xff\xff\xff\xff\x12\x8e\x12\x8d\xff\xff\x0b\x7e\x06\x18\xff\xff\xff\xff\xff\xff\x06\x3d\x12\x8f\xff\xff\x12\x90\xff\xff\xff\xff\x08\xb5\xff\xff\xff\xff\x12\x91\xff\xff\xff\xff\xff\xff\xff\xff\x07\xce\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\xd1\x12\x92\xff\xff\xff\xff\xff\xff\xff\xff\x10\x14\x09\x73\x07\xb9\x10\x86\x0c\x2f\x0e\xbd\x0a\x7b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xa6\xff\xff\x0a\x66\x0a\x73\xff\xff\x0a\xd6\xff\xff\x0e\xbe\xff\xff\xff\xff\xff\xff\x12\x95\xff\xff\x06\x22\x0c\x30\x08\xfb\x08\xc3\x08\x25\xff\xff\xff\xff\x12\x99\x0c\xc0\x0c\xbc\x07\xe9\x0a\xe2\x12\x9a\x12\x98\x06\x82\x0c\xa4\x0a\x36\x09\xea\x06\x05\xff\xff\xff\xff\x07\x10\x09\x46\x09\xe9\xff\xff\x12\x9b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\x12\x9c\xff\xff\x07\xa8\x06\xe5\xff\xff\xff\xff\xff\xff\x09\x47\x07\xa7\x0d\x5d\x06\x04\x0d\xef\x10\x3c\x09\x00\x10\xd9\x0d\xa6\x08\xfc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x4e\xff\xff\x12\xa5\xff\xff\x08\x21\x0f\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xdb\xff\xff\xff\xff\x12\xa4\xff\xff\x07\x5c\x12\x9f\x12\xa0\x12\xa2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xa3\xff\xff\x07\xba\x0b\x81\xff\xff\x0f\x6b\x12\xa1\x12\x9d\x08\xe1\xff\xff\x12\x9e\xff\xff\x11\x43\xff\xff\xff\xff\xff\xff\x0f\xb0\xff\xff\x0d\x66\x08\xe0\x09\x50\xff\xff\xff\xff\xff\xff\x12\xa6\xff\xff\xff\xff\x0e\x1b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xaa\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x7c\xff\xff\x0a\x74\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xad\x12\xab\xff\xff\x10\x21\xff\xff\x12\xa8\x12\xb1\x12\xac\xff\xff\xff\xff\xff\xff\x12\xaf\x08\xc4\x10\x3d\xff\xff\xff\xff\x12\xb0\xff\xff\xff\xff\xff\xff\x12\xb2\xff\xff\x12\xb4\xff\xff\xff\xff\xff\xff\xff\xff\x09\xae\x11\x61\xff\xff\x12\xa9\x12\xa7\x12\xb3\xff\xff\x12\xae\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xb6\xff\xff\x12\xc2\x12\xb8\xff\xff\xff\xff\x12\xbc\xff\xff\xff\xff\x12\xc0\x12\xb9\xff\xff\xff\xff\x12\xdd\xff\xff\xff\xff\x09\xa7\x06\xd0\xff\xff\xff\xff\xff\xff\xff\xff\x12\xb7\xff\xff\xff\xff\xff\xff\x12\xc4\x05\xf4\x12\xc3\xff\xff\x05\xa3\x0f\x29\x12\xc1\xff\xff\x12\xba\xff\xff\xff\xff\x12\xb5\x12\xbb\x09\x86\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xc5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xf5\x12\xce\xff\xff\xff\xff\x12\xc6\x12\xc7\xff\xff\x0a\xe3\x10\x09\xff\xff\xff\xff\xff\xff\x12\xcc\x12\xcb\xff\xff\xff\xff\xff\xff\x0d\x8e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xcd\xff\xff\xff\xff\x12\xca\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\x06\x13\xff\xff\x09\x74\x0b\x4f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xc8\x0d\xc2\xff\xff\xff\xff\xff\xff\x12\xc9\xff\xff\x05\xa0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xd3\x10\x82\xff\xff\x0a\xe5\xff\xff\x12\xd9\xff\xff\xff\xff\xff\xff\xff\xff\x12\xd8\x12\xcf\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x81\xff\xff\x12\xd0\xff\xff\xff\xff\xff\xff\x0c\xad\x12\xd5\x0a\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xd2\xff\xff\xff\xff\x10\x62\xff\xff\xff\xff\xff\xff\x08\x5b\xff\xff\xff\xff\x12\xd6\x12\xd7\xff\xff\xff\xff\xff\xff\xff\xff\x12\xd4\x12\xda\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xd1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xe0\x12\xe5\xff\xff\x12\xe1\xff\xff\x12\xdc\xff\xff\xff\xff\x12\xe6\x0c\x10\xff\xff\xff\xff\x12\xe8\xff\xff\x09\x01\x12\xde\x0d\x1d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xe2\x12\xdb\x07\x2b\xff\xff\x07\x6c\x07\x05\x12\xe3\x12\xdf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x96\x12\xe9\x12\xe7\x0c\x32\x07\xa9\x07\xea\xff\xff\x12\xe4\xff\xff\x08\x32\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x23\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xed\x12\xeb\xff\xff\x13\x25\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xf0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xea\xff\xff\x12\xee\xff\xff\xff\xff\x12\xec\xff\xff\xff\xff\xff\xff\x09\xeb\x12\xef\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xf2\xff\xff\x12\xf7\xff\xff\xff\xff\xff\xff\x12\xf5\x12\xf4\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xd1\xff\xff\xff\xff\x06\x83\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xf1\xff\xff\x12\xf3\x0a\xe6\x06\x12\xff\xff\xff\xff\x12\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x9c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x02\xff\xff\x0b\x3a\x12\xfd\xff\xff\x12\xfb\xff\xff\x12\xfc\xff\xff\x12\xfe\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x1c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x18\xff\xff\x12\xf8\xff\xff\x12\xf9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x1a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x01\xff\xff\xff\xff\xff\xff\x07\x6d\xff\xff\x13\x04\x13\x00\x13\x03\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x6c\xff\xff\xff\xff\xff\xff\x0e\x13\xff\xff\x0e\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x06\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x05\x06\xe4\xff\xff\xff\xff\x13\x07\xff\xff\xff\xff\xff\xff\xff\xff\x13\x0a\xff\xff\xff\xff\xff\xff\xff\xff\x13\x09\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x08\xff\xff\x0e\x58\xff\xff\xff\xff\x13\x0b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x0c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x0e\xff\xff\x13\x0d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x10\xff\xff\xff\xff\xff\xff\x13\x13\x13\x11\x13\x0f\x13\x12\xff\xff\xff\xff\xff\xff\xff\xff\x13\x14\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x15\xff\xff\xff\xff\x13\x16\xff\xff\x13\x17\xff\xff\xff\xff\xff\xff\x13\x18\x12\x24\xff\xff\x0a\x7a\x09\xec\xff\xff\xff\xff\x06\xb1\xff\xff\x05\xf6\xff\xff\xff\xff\x0c\xe3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x19\xff\xff\x09\x62\xff\xff\x05\xcd\x0b\x7d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x1a\x08\xc5\xff\xff\xff\xff\x09\x51\xff\xff\x13\x1c" +
	"\x13\x1b\xff\xff\xff\xff\x0f\x9e\x13\x1d\xff\xff\xff\xff\xff\xff\x13\x1f\x13\x1e\xff\xff\x13\x20\xff\xff\x13\x21\xff\xff\x08\x97\xff\xff\xff\xff\x06\x40\x13\x22\xff\xff\xff\xff\x13\x24\xff\xff\x13\x23\xff\xff\xff\xff\xff\xff\x13\x26\xff\xff\xff\xff\x0d\xb9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x27\x05\xb3\x09\x9d\xff\xff\xff\xff\xff\xff\xff\xff\x08\x5c\xff\xff\xff\xff\x0c\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x28\x13\x29\xff\xff\xff\xff\x13\x2b\xff\xff\xff\xff\xff\xff\xff\xff\x13\x2c\xff\xff\x09\xa2\xff\xff\xff\xff\xff\xff\xff\xff\x08\x0f\xff\xff\xff\xff\x0f\xd6\xff\xff\xff\xff\xff\xff\x13\x2a\x13\x2d\x09\x7f\x09\x02\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x31\xff\xff\xff\xff\x09\x63\xff\xff\x0c\xd2\xff\xff\xff\xff\x13\x2e\x0d\x58\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x32\xff\xff\xff\xff\x0b\x82\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x30\x13\x33\xff\xff\x08\x5e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x34\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x35\xff\xff\x09\x03\x06\xdf\x13\x37\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x38\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x39\xff\xff\xff\xff\x13\x36\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x2f\xff\xff\xff\xff\x13\x3a\xff\xff\xff\xff\x13\x3b\xff\xff\xff\xff\xff\xff\xff\xff\x10\x04\xff\xff\xff\xff\x0b\x29\xff\xff\xff\xff\xff\xff\x13\x3d\x13\x3e\x13\x3c\xff\xff\x13\x40\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x57\xff\xff\xff\xff\x05\xe6\x0f\x35\xff\xff\xff\xff\x13\x41\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x3b\xff\xff\xff\xff\x0a\x37\xff\xff\x0e\x7c\x07\x6e\xff\xff\x09\xa9\xff\xff\xff\xff\xff\xff" +
	"\x0f\xf8\xff\xff\x0d\xf0\xff\xff\xff\xff\x08\x98\x0c\x8d\xff\xff\xff\xff\xff\xff\x13\x3f\x13\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x82\xff\xff\xff\xff\xff\xff\x13\x43\xff\xff\xff\xff\xff\xff\x13\x44\xff\xff\xff\xff\xff\xff\x13\x46\xff\xff\xff\xff\x0d\x67\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x2c\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x1f\x06\x41\x0f\xb1\xff\xff\xff\xff\x0b\x2a\x0d\xa7\xff\xff\xff\xff\xff\xff\xff\xff\x09\xa4\xff\xff\xff\xff\x13\x4c\xff\xff\xff\xff\x0f\x7b\x11\x1b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xb2\x13\x48\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x19\x13\x4b\xff\xff\x0d\xc3\xff\xff\xff\xff\x0d\xa8\x0d\xc4\x0e\xb7\x0d\x4b\xff\xff\xff\xff\xff\xff\x09\x87\xff\xff\xff\xff\xff\xff\x13\x47\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x56\xff\xff\x0d\x95\xff\xff\xff\xff\xff\xff\xff\xff\x13\x49\xff\xff\x13\x45\xff\xff\xff\xff\x0b\x6f\xff\xff\xff\xff\xff\xff\x13\x4d\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xad\xff\xff\xff\xff\xff\xff\xff\xff\x07\xeb\xff\xff\x13\x4e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xa6\xff\xff\xff\xff\xff\xff\x0c\x5d\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x44\xff\xff\xff\xff\x13\x50\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xee\xff\xff\xff\xff\x13\x51\xff\xff\xff\xff\x13\x56\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x6d\xff\xff\xff\xff\xff\xff\xff\xff\x13\x55\x13\x4f\x13\x52\x13\x54\xff\xff\xff\xff\x09\x64\xff\xff\xff\xff\x0f\x87\xff\xff\xff\xff\xff\xff\x13\x57\xff\xff\x0c\xe4\xff\xff\xff\xff\x06\xb3\xff\xff\x0b\x2b\xff\xff\xff\xff\xff\xff\xff\xff\x13\x59\xff\xff\x13\x58\xff\xff\x09\x48\xff\xff\x13\x5a\x13\x5c\x13\x5b\xff\xff\xff\xff\x13\x5e\xff\xff\x13\x53\x13\x60\xff\xff\xff\xff\xff\xff\xff\xff\x13\x5f\x13\x5d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\xed\x0b\x70\xff\xff\x0c\x33\x13\x61\x0b\xba\x05\xeb\x0e\x84\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x59\xff\xff\x13\x63\x13\x62\x13\x64\x13\x65\x13\x66\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\x13\x67\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x8f\x13\x68\xff\xff\xff\xff\xff\xff\xff\xff\x06\x84\x13\x69\xff\xff\xff\xff\xff\xff\xff\xff\x10\x9b\x06\xcf\xff\xff\x12\x87\x0a\xa7\x0c\x7d\x13\x6a\x10\x69\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x32\xff\xff\xff\xff\x13\x6c\xff\xff\x0c\xa5\xff\xff\x0d\x96\x0c\x7e\x0f\x36\x13\x6d\x13\x6e\x06\x5b\xff\xff\xff\xff\x0a\x38\x13\x6f\xff\xff\xff\xff\xff\xff\xff\xff\x05\xce\x13\x70\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x71\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x42\xff\xff\xff\xff\x07\x6f\x0e\x1e\x0f\xb2\xff\xff\xff\xff\xff\xff\xff\xff\x13\x75\x0c\x34\x13\x74\x08\x5f\xff\xff\xff\xff\x0f\xfa\x13\x73\xff\xff\x0d\xc5\x13\x77\xff\xff\x13\x76\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x79\xff\xff\x13\x78\xff\xff\xff\xff\x06\x5c\xff\xff\x13\x7a\x0a\xe7\x13\x7c\x0c\xc4\xff\xff\x13\x7b\xff\xff\x0f\x71\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xd7\x0d\xba\xff\xff\xff\xff\xff\xff\x13\x80\xff\xff\xff\xff\xff\xff\xff\xff\x09\x04\xff\xff\xff\xff\xff\xff\x13\x81\x0e\x40\x0e\xdc\x10\x4f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x44\xff\xff\xff\xff\x13\x8a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x97\xff\xff\xff\xff\x10\xa4\xff\xff\xff\xff\x10\x2d\xff\xff\x13\xea\xff\xff\x13\x82\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x85\xff\xff\x0c\x83\xff\xff\xff\xff\x0f\xd7\xff\xff\xff\xff\xff\xff\x0d\xa9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x86\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x05\xff\xff\x09\x88\xff\xff\xff\xff\x0a\xe8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x87\xff\xff\xff\xff\x09\xef\xff\xff\x09\xee\xff\xff\xff\xff\xff\xff\xff\xff\x05\xb7\x08\xc6\xff\xff\x0b\xa9\x05\xcf\xff\xff\xff\xff\xff\xff\xff\xff\x13\x8b\x13\x8c\xff\xff\x13\x89\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x17\x07\x2d\xff\xff\x13\x88\xff\xff\x10\x43\x0f\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xa6\xff\xff\xff\xff\xff\xff\xff\xff\x05\xf7\xff\xff\xff\xff\xff\xff\x09\xf0" +
	"\xff\xff\x05\xd0\xff\xff\x05\xa1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x91\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x8f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x3a\xff\xff\x13\x92\xff\xff\x13\x90\xff\xff\xff\xff\x13\x8e\x0b\x50\xff\xff\xff\xff\xff\xff\xff\xff\x13\x8d\xff\xff\xff\xff\xff\xff\x0f\x98\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xe2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x96\x13\x97\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xe9\xff\xff\xff\xff\xff\xff\x13\x93\x11\x4b\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x6b\xff\xff\xff\xff\x13\x95\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x65\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x98\xff\xff\xff\xff\xff\xff\x0f\x37\xff\xff\xff\xff\xff\xff\x13\x99\xff\xff\x13\x94\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x39\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x7d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x9a\x0f\x11\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\x9b\x13\x9f\x13\x9c\xff\xff\xff\xff\x06\x85\x13\x9e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x39\xff\xff\x13\x9d\x08\x99\xff\xff\xff\xff\xff\xff\x13\xab\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xa4\x13\xa1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x04\xff\xff\x13\xa0\xff\xff\xff\xff\x13\xa2\xff\xff\xff\xff\x13\xa3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xa5\x13\xa6\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x70\xff\xff\x13\xa8\x13\xa7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xa9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x2c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xac\xff\xff\x0d\x5a\xff\xff\xff\xff\xff\xff\x06\x24\xff\xff\x13\xaa\xff\xff\xff\xff\xff\xff\x13\xad\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xae\xff\xff\x13\xb1\xff\xff\xff\xff\x13\xaf\xff\xff\x13\xb0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\xf1\x13\xb2\xff\xff\xff\xff\x09\x05\x13\xb3\xff\xff\x0a\x1a\x0c\x76\xff\xff\x13\xb4\x13\xb5\x09\xf9\x09\x06\xff\xff\x10\x50\xff\xff\xff\xff\xff\xff\x07\x87\x08\xc7\x13\xb6\x06\xf7\xff\xff\xff\xff\x13\xb7\xff\xff\x0c\x77\xff\xff\xff\xff\xff\xff\xff\xff\x13\xb8\x13\xe1\xff\xff\x13\xb9\xff\xff\x13\xba\xff\xff\xff\xff\x13\xbb\xff\xff\x13\xbd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xbe\xff\xff\xff\xff\x13\xc0\xff\xff\x0c\xae\xff\xff\x06\x06\x0a\x67\x05\xc0\xff\xff\x0c\x36\x07\x2e\x0a\x33\xff\xff\x09\x07\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xc6\xff\xff\x0a\x80\x07\x2f\x0d\x08\x0d\x68\x05\xb6\x07\x98\x0f\xb3\xff\xff\x0a\x40\xff\xff\xff\xff\x07\xb1\x0b\xe9\x0a\x3a\x10\x87\x13\xc1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xbb\xff\xff\x09\x89\xff\xff\xff\xff\x06\xd1\x06\x43\x0a\xea\x06\x86\xff\xff\x13\xc2\x10\xa5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xa8\xff\xff\xff\xff\x0a\x62\x13\xc3\x07\x71\x0e\x10\x10\x27\x13\xc4\xff\xff\x13\xc5\xff\xff\xff\xff\x0f\x38\xff\xff\xff\xff\xff\xff\x13\xc7\xff\xff\x07\x26\x08\x35\x13\xc6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x30\xff\xff\x0b\x51\x13\xcb\x09\xc0\xff\xff\x06\x87\x13\xca\xff\xff\x13\xc8\x13\xcc\x13\xc9\x0e\x4a\x16\x4b\x0b\x52\xff\xff\x13\xcd\xff\xff\xff\xff\x10\xfe\xff\xff\x13\xce\xff\xff\xff\xff\x13\xd0\xff\xff\x0d\x1e\x13\xcf\xff\xff\x0b\xa1\xff\xff\x0a\x1b\xff\xff\xff\xff\xff\xff\x0c\x8e\x0a\x75" +
	"\xff\xff\x0f\x55\x0b\xea\xff\xff\x0a\x4b\x13\xd1\x0a\xeb\x13\xd2\x13\xd3\x05\xd1\x0c\x78\x0b\x71\xff\xff\x13\xd4\x0d\xf1\x0a\xec\xff\xff\x0a\xed\xff\xff\x13\xd5\xff\xff\xff\xff\x0b\xeb\xff\xff\xff\xff\xff\xff\x0a\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xd6\xff\xff\x13\xd7\xff\xff\x10\x5e\xff\xff\xff\xff\xff\xff\x13\xd8\xff\xff\xff\xff\xff\xff\xff\xff\x08\x04\xff\xff\xff\xff\xff\xff\x0a\x81\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xd9\x13\xda\x0a\x5a\x0b\x4b\x0e\x32\x0b\x73\x0e\xf6\x0e\x41\x08\x07\x13\xdb\xff\xff\xff\xff\xff\xff\x07\xcf\x13\xdc\xff\xff\x08\x3c\xff\xff\x0e\x0d\x06\x6e\xff\xff\x09\xf2\x13\xdd\x13\xe0\x13\xdf\x08\x3b\xff\xff\x13\xde\xff\xff\x0d\x97\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x6e\xff\xff\x0d\xaa\x0a\x46\xff\xff\xff\xff\x0c\x37\x10\xda\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xe2\xff\xff\x13\xe3\x0e\x14\xff\xff\x09\xd2\xff\xff\xff\xff\xff\xff\xff\xff\x13\xe5\xff\xff\xff\xff\x13\xe6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xe7\xff\xff\xff\xff\xff\xff\x07\x72\x13\xe8\xff\xff\xff\xff\x13\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x6a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x1a\x07\x62\xff\xff\x13\xeb\x10\x26\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x90\xff\xff\x06\xf8\xff\xff\xff\xff\x13\xed\x13\xef\x07\x5d\xff\xff\xff\xff\x13\xec\x13\xee\xff\xff\x13\xf1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xf0\xff\xff\x13\xf2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xfb\x07\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xa3\x13\xf4\x13\xf9\xff\xff\xff\xff\x13\xf7\xff\xff\x0f\xb5\x0f\xb4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xc7\xff\xff\xff\xff\xff\xff\x13\xf6\x0a\xb3\xff\xff\x13\xf5\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x92\xff\xff\xff\xff\xff\xff\x13\xfa\xff\xff\xff\xff\x09\xa8\xff\xff\xff\xff\x14\x00\xff\xff\xff\xff\x14\x01\x13\xfb\x06\xd2\x13\xfc\x14\x05\x14\x04\x14\x03\x13\xff\xff\xff\xff\xff\xff\xff\x13\xfe\xff\xff\xff\xff\x14\x02\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x09\x14\x06\xff\xff\x14\x08\xff\xff\x10\xd2\xff\xff\x14\x07\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x13\xfd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x93\xff\xff\xff\xff\x14\x0a\xff\xff\xff\xff\x09\x75\xff\xff\xff\xff\xff\xff\x14\x0b\xff\xff\xff\xff\x14\x0c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x0f\xff\xff\x14\x0e\xff\xff\xff\xff\x14\x0d\xff\xff\xff\xff\xff\xff\x0d\xc8\x13\xf8\xff\xff\xff\xff\xff\xff\x14\x15\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x11\xff\xff\xff\xff\xff\xff\xff\xff\x14\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x12\xff\xff\x14\x13\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x16\xff\xff\xff\xff\x11\x24\xff\xff\x14\x17\x14\x14\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x18\xff\xff\xff\xff\x07\x5e\x14\x19\xff\xff\xff\xff\xff\xff\xff\xff\x14\x1b\x14\x1a\xff\xff\xff\xff\x14\x1c\xff\xff\xff\xff\xff\xff\xff\xff\x14\x1d\xff\xff\x0b\xec\x0a\x82\xff\xff\xff\xff\x0a\xc4\xff\xff\x0c\x43\xff\xff\x09\x08\x09\x76\x09\x09\x07\xd0\xff\xff\xff\xff\x14\x1e\xff\xff\xff\xff\x09\x77\xff\xff\xff\xff\x08\xc8\x14\x1f\x10\x24\x0e\x62\x14\x20\xff\xff\x09\x0a\xff\xff\xff\xff\xff\xff\x07\x2a\xff\xff\x0c\xc6\x08\x10\xff\xff" +
	"\xff\xff\xff\xff\x09\xf3\x0f\x3a\xff\xff\xff\xff\x0e\xbf\xff\xff\xff\xff\xff\xff\xff\xff\x14\x21\x07\x73\xff\xff\xff\xff\xff\xff\xff\xff\x14\x24\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x1f\xff\xff\xff\xff\x14\x23\x14\x22\x14\x25\xff\xff\x0d\x69\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x83\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\xf4\xff\xff\x0b\xc8\xff\xff\x0c\x91\x07\x81\xff\xff\xff\xff\x0d\x20\xff\xff\xff\xff\x14\x26\x14\x27\x0b\x2d\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xd8\xff\xff\xff\xff\x14\x2a\xff\xff\xff\xff\x14\x29\x14\x28\x0f\x5d\xff\xff\x14\x31\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xf9\xff\xff\x14\x2b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x2d\x10\x0b\xff\xff\x14\x2c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x2e\xff\xff\x0e\xa6\x14\x2f\x0f\x7c\x14\x30\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x31\x0f\x7d\x0e\x4e\x14\x32\x14\x33\xff\xff\x09\x0b\x07\x32\x14\x34\x08\xb6\x10\xa3\x10\x88\x07\x74\x14\x36\xff\xff\x0d\x21\xff\xff\x09\x0c\x0a\xef\xff\xff\xff\xff\x0e\xdd\xff\xff\xff\xff\x0a\xf0\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xd8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x6a\x0f\xb7\x0d\x98\xff\xff\xff\xff\x09\x0d\xff\xff\x0f\x3b\xff\xff\xff\xff\xff\xff\x14\x37\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xb8\x09\x80\xff\xff\xff\xff\xff\xff\x08\xc9\xff\xff\x0d\x6b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xc1\x0a\xce\x09\x0e\x10\xa6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x38\x14\x39\x0e\x70\xff\xff\xff\xff\xff\xff\xff\xff\x14\x3a\x11\x35\x11\x4c\xff\xff\xff\xff\xff\xff\xff\xff\x14\x3c\x14\x3b\xff\xff\xff\xff\x06\xe6\xff\xff\xff\xff\x14\x40\xff\xff\xff\xff\xff\xff\x14\x43\x14\x44\xff\xff\x14\x42\xff\xff\x0f\x1f\x0a\xf1\x14\x46\x14\x45\x14\x41\xff\xff\xff\xff\xff\xff\xff\xff\x14\x47\x14\x48\xff\xff\xff\xff\x14\x49\xff\xff\xff\xff\xff\xff\x14\x4c\x14\x4a\xff\xff\x14\x4b\x14\x4d\xff\xff\x06\x44\x0d\x6c\x14\x4e\xff\xff\x08\x9a\x06\xb4\x0e\x55\xff\xff\x14\x4f\x0e\x39" +
	"\xff\xff\x0f\x99\xff\xff\x14\x50\x11\x4d\xff\xff\xff\xff\xff\xff\xff\xff\x14\x51\x0f\x7e\x14\x54\x11\x9f\x11\xaf\xff\xff\x0a\x2e\x0e\x33\x14\x55\xff\xff\x07\xbc\x0d\x22\x05\xf8\x14\x56\x0f\x64\x09\x0f\xff\xff\xff\xff\x0c\xef\xff\xff\xff\xff\xff\xff\x0d\x6d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x6d\x08\xb7\x08\xca\xff\xff\x14\x57\xff\xff\xff\xff\xff\xff\x14\x58\xff\xff\x14\x5e\xff\xff\x0a\x63\xff\xff\xff\xff\xff\xff\x0d\x23\xff\xff\x07\xed\x14\x59\xff\xff\xff\xff\xff\xff\x0f\x0a\xff\xff\x0c\xe5\xff\xff\xff\xff\x14\x5a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x5b\xff\xff\x07\xee\xff\xff\x14\x5c\xff\xff\x14\x5d\xff\xff\xff\xff\x14\x5f\xff\xff\x0d\xd6\xff\xff\xff\xff\x14\x60\x14\x61\xff\xff\x14\x62\xff\xff\xff\xff\x14\x53\x14\x52\xff\xff\xff\xff\xff\xff\x14\x63\x08\x60\xff\xff\xff\xff\xff\xff\x0f\x06\xff\xff\xff\xff\x09\x8a\x0f\x16\x0d\x24\x0f\x2a\x14\x64\xff\xff\xff\xff\x0a\xf2\x06\x25\xff\xff\x14\x65\xff\xff\xff\xff\xff\xff\x14\x66\xff\xff\x10\x70\xff\xff\xff\xff\x0e\xde\xff\xff\xff\xff\x14\x69\x06\x5d\x0b\xaa\x14\x68\x14\x67\x08\x61\x0c\x92\xff\xff\x14\x6d\x14\x6b\xff\xff\x14\x6a\x10\xe5\x08\xe3\xff\xff\xff\xff\xff\xff\x0a\xd9\x14\x6c\x0d\xab\x0a\x9d\xff\xff\xff\xff\xff\xff\x0d\xfe\x14\x70\x14\x6f\xff\xff\xff\xff\xff\xff\xff\xff\x14\x6e\xff\xff\x14\x71\x08\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x72\x0f\x5c\x0a\xba\xff\xff\xff\xff\x14\x73\x0e\xf7\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xff\x0d\x25\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x8f\xff\xff\xff\xff\x14\x74\x07\x8a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x53\xff\xff\x0f\x0b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x75\x0e\x45\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x75\x09\xf5\x0f\xd9\x0f\xda\xff\xff\xff\xff\x06\x5e\x14\x7a\xff\xff\xff\xff\x0d\x09\xff\xff\xff\xff\xff\xff\x14\x77\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xb5\xff\xff\xff\xff\xff\xff\xff\xff\x14\xab\x14\x79\xff\xff\xff\xff\xff\xff\x0e\x4f\xff\xff\xff\xff\x14\x78\xff\xff\xff\xff\x14\x76\xff\xff\x09\x5a\xff\xff\x14\x7c" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x83\x14\x89\x14\x81\xff\xff\x0d\xbb\xff\xff\xff\xff\x14\x86\x0f\x3c\xff\xff\xff\xff\x14\x80\xff\xff\x14\x85\x11\x25\x09\xf6\xff\xff\xff\xff\x0c\x93\x14\x7d\xff\xff\xff\xff\xff\xff\x07\xbd\x14\x88\x0b\xab\x06\x45\x14\x82\x06\xb6\x14\x87\xff\xff\xff\xff\xff\xff\x07\xef\xff\xff\x14\x84\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x8a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x8c\x14\x96\x14\x94\xff\xff\xff\xff\x14\x91\xff\xff\xff\xff\xff\xff\x14\x90\x11\x36\xff\xff\x14\x92\xff\xff\xff\xff\x07\xf0\xff\xff\x09\x10\xff\xff\xff\xff\x0a\xda\xff\xff\xff\xff\xff\xff\x14\x99\x14\x8b\xff\xff\xff\xff\xff\xff\xff\xff\x14\x8f\x14\x7e\xff\xff\x06\xb8\x14\x93\x14\x95\x0c\xf0\xff\xff\xff\xff\x09\x66\x06\x76\x14\x8d\x14\x98\x14\x97\x07\xf1\xff\xff\x0c\x67\x07\x06\xff\xff\xff\xff\xff\xff\xff\xff\x08\x62\xff\xff\x14\x8e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\x9a\xff\xff\x14\x9d\x14\x9f\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x3b\xff\xff\x14\xa5\x0d\x6e\x14\x9b\xff\xff\xff\xff\xff\xff\xff\xff\x14\xa3\xff\xff\x06\xb7\xff\xff\x14\xa1\x14\xa2\xff\xff\xff\xff\x14\x9e\x14\xa0\xff\xff\xff\xff\xff\xff\x08\xe5\x10\x89\xff\xff\xff\xff\x07\x33\xff\xff\xff\xff\x06\x38\x14\xa4\xff\xff\x0e\x59\x05\xab\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xdf\x14\x7b\x14\xaa\x14\xae\x10\x63\xff\xff\x14\xa7\xff\xff\xff\xff\xff\xff\x0d\xc9\x14\xac\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x2e\x14\xad\x0e\x15\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x66\xff\xff\x14\xa9\xff\xff\xff\xff\xff\xff\xff\xff\x14\xaf\xff\xff\x09\x5b\xff\xff\x0b\xc9\xff\xff\xff\xff\x05\xd2\x14\xa8\x14\xa6\xff\xff\x0c\x39\xff\xff\xff\xff\xff\xff\x14\x9c\x09\xd3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x84\x14\xbb\xff\xff\x0c\x3a\x14\xb6\xff\xff\x14\xb3\x14\xb4\xff\xff\x0a\x64\x14\xb7\x14\xba\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\x14\xb5\x0a\x84\xff\xff\x14\xb8\xff\xff\xff\xff\x14\xb2\xff\xff\x10\x7a\x10\x79\xff\xff\xff\xff\xff\xff\x14\xbc\x14\xbd\x05\xd3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\xb1\xff\xff\xff\xff\xff\xff\xff\xff\x08\x30\x05\xa4\xff\xff\xff\xff\xff\xff\x07\x34\xff\xff\x14\xb9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\xc1\x14\xc0\xff\xff\xff\xff\xff\xff\x14\xc5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\xc6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\xc4\x14\xc7\x14\xbf\x14\xc3\xff\xff\xff\xff\x14\xc8\xff\xff\x14\xc9\xff\xff\xff\xff\x14\xbe\x0a\x1c\xff\xff\x14\xc2\x0c\x94\x09\x11\x14\xb0\x0b\x54\xff\xff\xff\xff\xff\xff\xff\xff\x14\xd6\xff\xff\x0f\xa7\xff\xff\xff\xff\x14\xcc\x14\xcd\x14\xce\xff\xff\xff\xff\x14\xd5\xff\xff\x14\xd4\xff\xff\xff\xff\x10\x1d\x07\x35\xff\xff\x14\xd2\xff\xff\x08\x64\x06\xd3\xff\xff\xff\xff\x14\xcf\xff\xff\xff\xff\x10\xf6\x14\xd1\x05\xd4\x14\xd3\xff\xff\x14\xca\x14\xd0\x14\xd7\x08\x63\x14\xcb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xbc\xff\xff\xff\xff\xff\xff\x10\x8a\xff\xff\xff\xff\xff\xff\xff\xff\x14\xda\xff\xff\xff\xff\x14\xde\xff\xff\xff\xff\xff\xff\x0c\x5e\xff\xff\x11\x37\x14\xdf\xff\xff\xff\xff\x14\xdc\xff\xff\x14\xd9\xff\xff\xff\xff\x14\xd8\x14\xdd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x6e\xff\xff\xff\xff\x0d\xf2\xff\xff\x08\x65\xff\xff\x14\xe0\x14\xdb\xff\xff\x14\xe1\xff\xff\xff\xff\xff\xff\x08\x9b\xff\xff\xff\xff\xff\xff\x06\x6f\xff\xff\xff\xff\xff\xff\x14\xe9\xff\xff\xff\xff\xff\xff\x07\x36\xff\xff\xff\xff\xff\xff\xff\xff\x14\xe7\xff\xff\xff\xff\x14\xe8\x09\x67\x14\xe6\x14\xe4\x14\xe3\x14\xea\x14\xe2\x14\xec\xff\xff\xff\xff\x06\xb9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\xee\xff\xff\xff\xff\x14\xed\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x26\xff\xff\x14\xf1\xff\xff\x14\xef\x14\xe5\x08\x9c\xff\xff\x14\xf0\xff\xff\x14\xf4\x14\xf3\x14\xf5\x14\xf2" +
	"\x14\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x14\xf7\x14\xf8\x0f\xa8\xff\xff\x14\xfa\x14\xf9\x0a\x9e\xff\xff\x0b\xac\x06\xa4\x06\xba\xff\xff\x14\xfb\xff\xff\x05\xbd\xff\xff\xff\xff\xff\xff\x0b\xca\x14\xfc\xff\xff\x1c\x41\x15\x00\x08\x81\xff\xff\x15\x01\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xed\xff\xff\xff\xff\xff\xff\x15\x02\xff\xff\xff\xff\xff\xff\x15\x03\x07\x99\x15\x04\xff\xff\x15\x05\x15\x06\x0c\x95\xff\xff\xff\xff\xff\xff\x08\xcb\xff\xff\xff\xff\x10\x5f\xff\xff\xff\xff\xff\xff\x0f\xdb\x0a\xca\x15\x07\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xee\x1c\xfb\x0e\xe0\xff\xff\x0a\x68\xff\xff\x09\x8b\x15\x08\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x85\xff\xff\x0f\x65\xff\xff\xff\xff\x0c\xaf\xff\xff\xff\xff\x15\x0b\xff\xff\xff\xff\x15\x09\xff\xff\x15\x0c\xff\xff\xff\xff\x15\x0a\xff\xff\xff\xff\xff\xff\xff\xff\x15\x0d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x6f\xff\xff\xff\xff\x05\xb5\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x3d\xff\xff\xff\xff\x0e\xe1\xff\xff\xff\xff\x15\x0e\xff\xff\x15\x11\x0a\xf3\x07\x9a\xff\xff\x15\x0f\x15\x16\x0a\xf4\xff\xff\xff\xff\xff\xff\xff\xff\x15\x10\x0e\x63\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xbd\x15\x12\x15\x13\x15\x17\x0d\xca\x15\x14\x09\x12\x0b\xdc\xff\xff\xff\xff\x15\x25\x0e\xb2\xff\xff\x0c\xb0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xe2\x15\x6b\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xb8\xff\xff\xff\xff\xff\xff\x0d\x6f\xff\xff\xff\xff\xff\xff\x10\x15\xff\xff\x15\x1a\x06\x5f\x0d\x0a\xff\xff\xff\xff\xff\xff\xff\xff\x15\x23\xff\xff\xff\xff\x0c\xd3\x15\x1d\x15\x24\x15\x1f\x15\x26\x15\x22\xff\xff\x15\x21\x0e\x8f\xff\xff\x15\x1b\x06\xbb\x15\x19\x07\xd1\x0c\xb1\x15\x15\xff\xff\xff\xff\x15\x18\x09\x13\x0b\xd9\xff\xff\x0a\xf5\x15\x20\x0e\x71\xff\xff\xff\xff\x07\xd2\x06\xe7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x07\x0b\x40\x15\x28\x15\x2d\xff\xff\x15\x29\xff\xff\x08\x9d\xff\xff\x15\x2e\x09\xc1\x09\x49\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x85\x15\x1c" +
	"\xff\xff\x0a\x1d\x15\x2b\xff\xff\xff\xff\xff\xff\xff\xff\x09\xf7\x15\x2c\x05\xc2\xff\xff\xff\xff\x15\x27\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x27\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xd3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xf2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x2a\x05\xa5\xff\xff\xff\xff\x09\x81\xff\xff\xff\xff\xff\xff\x0b\x55\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x70\xff\xff\xff\xff\x0e\xd2\x15\x30\x0c\x3d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x68\xff\xff\xff\xff\x09\xca\x15\x31\xff\xff\x15\x33\x15\x2f\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x9f\xff\xff\x0d\x3b\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xb9\x0a\x4c\x15\x40\xff\xff\x15\x3e\xff\xff\xff\xff\x0b\x98\xff\xff\xff\xff\xff\xff\x08\x9e\xff\xff\xff\xff\xff\xff\x15\x38\x0a\xf7\xff\xff\xff\xff\x0e\x26\x0e\x50\xff\xff\xff\xff\xff\xff\xff\xff\x15\x36\xff\xff\xff\xff\x0c\x3c\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x76\x15\x3b\xff\xff\xff\xff\x0a\xf6\xff\xff\x15\x35\x15\x3a\xff\xff\xff\xff\x0e\x72\xff\xff\xff\xff\xff\xff\x15\x34\xff\xff\x08\x40\xff\xff\xff\xff\x06\xfc\xff\xff\xff\xff\xff\xff\x15\x3c\x10\xe9\x09\x8c\x0c\xd4\x15\x39\xff\xff\x0b\xda\xff\xff\x09\x14\x0b\x84\x06\x46\x0c\x1b\x15\x37\x07\xa4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x66\xff\xff\x0d\x4d\x15\x3d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x3e\xff\xff\xff\xff\x15\x41\xff\xff\x15\x43\xff\xff\xff\xff\x0c\x75\x15\x49\xff\xff\x15\x44\xff\xff\xff\xff\x15\x46\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x20\x0d\x71\xff\xff\x15\x47\xff\xff\xff\xff\xff\xff\x10\x8b\xff\xff\xff\xff\xff\xff\x10\xa7\x07\x37\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xac\xff\xff\x15\x45\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x42\xff\xff\xff\xff\xff\xff\xff\xff\x07\x76\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x47\xff\xff\x15\x48\xff\xff\xff\xff\xff\xff\x10\xa8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x4c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x79\xff\xff\x15\x53\xff\xff\xff\xff\xff\xff\x15\x4d\xff\xff\xff\xff\x15\x4a\x15\x51\xff\xff\xff\xff\xff\xff\xff\xff\x15\x32\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x4e\xff\xff\x15\x52\xff\xff\xff\xff\xff\xff\x0e\xc0\x0d\xcb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x4b\xff\xff\x15\x4f\xff\xff\xff\xff\xff\xff\x08\x67\xff\xff\xff\xff\xff\xff\x09\xaf\xff\xff\xff\xff\xff\xff\x0b\xdb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x57\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x85\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x54\xff\xff\x10\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x55\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x56\xff\xff\x10\x4c\xff\xff\x0b\xa0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x82\xff\xff\xff\xff\xff\xff\xff\xff\x15\x5d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\xd4\x15\x5a\xff\xff\x15\x59\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x51\xff\xff\xff\xff\xff\xff\x0d\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x90\x15\x5b\xff\xff\xff\xff\xff\xff\x15\x5c\xff\xff\x0f\x4f\xff\xff\x0e\x64\x09\xc2\xff\xff\x0b\xef\xff\xff\x0f\xef\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xe8\xff\xff\x15\x63\x15\x5e\xff\xff\xff\xff\xff\xff\xff\xff\x10\xa9\x15\x65\xff\xff\xff\xff\x15\x61\xff\xff\x15\x62\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x40\xff\xff\xff\xff\xff\xff\xff\xff\x15\x60\xff\xff\x15\x1e\xff\xff\xff\xff\xff\xff\x15\x64\xff\xff\x15\x5f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x69\x15\x6a\x0d\x86\x15\x6c\xff\xff\xff\xff\x09\xc3\x15\x67\xff\xff\xff\xff\xff\xff\xff\xff\x07\x9b\xff\xff\xff\xff\x15\x6d\xff\xff\x15\x66\x15\x71\xff\xff\x15\x70\xff\xff\x15\x6f\xff\xff\xff\xff\xff\xff\x15\x72\xff\xff\xff\xff\x15\x74\x0b\x2f\xff\xff" +
	"\x15\x73\xff\xff\xff\xff\xff\xff\xff\xff\x15\x77\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x75\xff\xff\xff\xff\xff\xff\x15\x76\x15\x50\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x79\x15\x78\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x58\x15\x7a\x15\x6e\xff\xff\xff\xff\x09\xf8\xff\xff\xff\xff\xff\xff\xff\xff\x15\x7b\x15\x7c\x15\x7e\x15\x7d\x15\x7f\x06\xbc\xff\xff\x09\x15\xff\xff\xff\xff\x0f\xba\x0b\xad\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xcc\xff\xff\xff\xff\x15\x81\xff\xff\xff\xff\xff\xff\xff\xff\x15\x84\xff\xff\x0f\x31\xff\xff\x07\xbe\xff\xff\xff\xff\xff\xff\x15\x83\x15\x82\x0e\x73\x15\x85\x07\xf3\xff\xff\xff\xff\xff\xff\x15\x87\x15\x86\xff\xff\xff\xff\xff\xff\x07\x38\x09\xd5\xff\xff\xff\xff\x0e\x16\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x68\xff\xff\xff\xff\xff\xff\x0b\x94\xff\xff\x15\x88\xff\xff\x0b\xae\x0d\x87\xff\xff\x0f\x3e\x15\x89\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x8a\x15\x8b\xff\xff\xff\xff\xff\xff\x0f\x76\x13\xbc\x0b\xc4\xff\xff\xff\xff\x0f\x2b\xff\xff\x09\x96\xff\xff\x0e\xe3\x0e\xc1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xac\xff\xff\x10\xff\xff\xff\x15\x8d\x0a\x4e\xff\xff\xff\xff\x15\x8e\xff\xff\x05\xb4\xff\xff\xff\xff\x08\x12\x0b\xcb\xff\xff\x0f\x40\xff\xff\xff\xff\xff\xff\x15\x8f\x09\xe1\x0c\xe6\xff\xff\x09\xfa\x0b\x56\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x90\xff\xff\x0f\xbb\xff\xff\xff\xff\x06\x57\x09\xfb\xff\xff\xff\xff\xff\xff\x15\x93\xff\xff\x15\x91\x15\x94\x10\xf7\x15\x92\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xf9\x15\x95\xff\xff\xff\xff\x0c\x70\xff\xff\xff\xff\x15\x96\xff\xff\xff\xff\xff\xff\xff\xff\x07\x78\xff\xff\x15\x98\xff\xff\x15\x97\xff\xff\xff\xff\xff\xff\xff\xff\x15\x99\x15\x9a\x07\x79\xff\xff\xff\xff\x0e\x3a\x0c\xd5\x07\xcc\x09\xfc\x0c\x41\xff\xff\xff\xff\x0a\xbb\x05\xae\xff\xff\xff\xff\xff\xff\x15\x9b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x60\x15\x9f\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\x09\x16\x15\x9e\xff\xff\xff\xff\x09\x69\x0a\xf8\xff\xff\xff\xff\x15\x9d\xff\xff\x0a\xf9\xff\xff\x10\x3e\x09\x68\xff\xff\xff\xff\xff\xff\x05\xd5\x0b\xcc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xa4\xff\xff\xff\xff\x0b\xaf\x06\x26\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xb4\xff\xff\x10\x06\x09\xb0\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xfa\xff\xff\x0b\xa5\xff\xff\xff\xff\xff\xff\xff\xff\x15\xa3\x15\xa1\x15\xa2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x0b\xff\xff\xff\xff\x15\xc5\xff\xff\x15\xa8\x0a\x1e\x09\x17\x15\xa6\xff\xff\xff\xff\xff\xff\xff\xff\x15\xa7\xff\xff\x0b\x57\xff\xff\xff\xff\xff\xff\x15\xa5\xff\xff\xff\xff\x09\xce\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xaa\x15\xa9\x15\xae\xff\xff\xff\xff\x15\xaf\xff\xff\x15\xab\xff\xff\x06\xc1\x15\xac\x15\xad\x0e\xd3\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x41\x08\x69\x15\xb0\xff\xff\xff\xff\xff\xff\x0b\xb0\xff\xff\x0a\xfb\xff\xff\xff\xff\xff\xff\x0c\xf1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x05\xff\xff\x15\xb1\x15\xb5\xff\xff\xff\xff\x06\x89\x15\xb2\x15\xb4\xff\xff\xff\xff\xff\xff\xff\xff\x15\xb3\xff\xff\xff\xff\x0a\xcb\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xe7\x05\xc3\x15\xb6\xff\xff\xff\xff\xff\xff\xff\xff\x15\xb7\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x28\xff\xff\xff\xff\xff\xff\x11\x2f\xff\xff\xff\xff\xff\xff\xff\xff\x09\xe2\xff\xff\xff\xff\x0f\xa9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xdc\xff\xff\xff\xff\xff\xff\x15\xc1\x15\xb9\xff\xff\xff\xff\x15\xbc\xff\xff\x15\xbb\xff\xff\xff\xff\x15\xb8\xff\xff\xff\xff\x15\xc0\xff\xff\xff\xff\x0e\x1c\xff\xff\x15\xba\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xc2\xff\xff\xff\xff\x0a\xcc\x15\xc3\xff\xff\x10\xaa\x0e\x98\xff\xff\xff\xff\x15\xc4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xc6\xff\xff\xff\xff\x15\xc7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xc8\xff\xff\x08\x08\x06\x27\x09\x18\x15\xc9\xff\xff\x15\xca\x0a\xd1\x0c\x42\xff\xff\xff\xff\x12\x96\x0c\x1d\x0c\x1c\x0c\x96" +
	"\x09\x85\xff\xff\xff\xff\x11\xf0\xff\xff\xff\xff\xff\xff\xff\xff\x08\x8e\x10\x8c\xff\xff\x0f\xbc\xff\xff\x0f\x5e\xff\xff\x15\xcb\xff\xff\xff\xff\xff\xff\xff\xff\x09\xb1\x0d\x3d\x15\xcc\x11\x4e\xff\xff\xff\xff\xff\xff\x0f\xdd\xff\xff\x0d\x29\x15\xcd\x07\x7a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xce\x15\xcf\x10\x58\xff\xff\x10\x22\x10\x16\x0f\xfb\x09\xc4\x15\xd1\xff\xff\xff\xff\x0a\x69\xff\xff\xff\xff\x0f\xf0\xff\xff\x15\xd3\x15\xd6\x15\xd5\xff\xff\x07\x77\xff\xff\xff\xff\x07\xc0\xff\xff\x15\xd2\xff\xff\x15\xd4\xff\xff\xff\xff\xff\xff\xff\xff\x15\xd7\xff\xff\xff\xff\x0b\x99\xff\xff\xff\xff\xff\xff\xff\xff\x10\xdb\x05\xc7\x09\x9e\x0c\x7a\xff\xff\x0a\x5b\xff\xff\xff\xff\x0b\x31\xff\xff\xff\xff\x15\xda\xff\xff\xff\xff\x0d\xad\xff\xff\x15\xd8\x0c\x69\x15\xd9\x0b\x30\x10\x5b\x15\xdb\x15\xdc\x10\xc8\xff\xff\xff\xff\xff\xff\xff\xff\x15\xe1\xff\xff\xff\xff\x09\x19\xff\xff\x0e\x74\x15\xde\x0d\xcc\x15\x9c\x15\xa0\xff\xff\x07\xae\xff\xff\x0e\x66\xff\xff\xff\xff\xff\xff\xff\xff\x15\xe0\xff\xff\x0a\xfc\x0e\xc2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xe6\xff\xff\x0e\xf8\xff\xff\x15\xdd\xff\xff\x15\xe3\x15\xe2\xff\xff\xff\xff\xff\xff\x0b\xcd\xff\xff\xff\xff\xff\xff\xff\xff\x10\x0d\xff\xff\x11\x11\xff\xff\xff\xff\x10\x07\xff\xff\x06\x8a\x09\xfd\xff\xff\xff\xff\x11\x67\x15\xe5\x0b\x95\xff\xff\xff\xff\xff\xff\x15\xe4\xff\xff\xff\xff\x15\xdf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xcd\xff\xff\xff\xff\xff\xff\x15\xeb\x15\xe9\xff\xff\x06\x8b\x15\xe7\x15\xed\x15\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x86\xff\xff\xff\xff\x0f\x7f\xff\xff\x15\xf5\xff\xff\xff\xff\xff\xff\x0f\x01\xff\xff\xff\xff\xff\xff\x15\xf4\x0e\x90\x0f\xde\x07\x39\xff\xff\x0b\xf5\x0a\x9f\xff\xff\xff\xff\xff\xff\x0d\x51\xff\xff\x10\x8d\xff\xff\xff\xff\x15\xf0\x15\xef\xff\xff\xff\xff\xff\xff\x15\xf1\xff\xff\x15\xee\xff\xff\xff\xff\x15\xf6\xff\xff\x15\xec\xff\xff\xff\xff\x15\xea\xff\xff\x15\xf2\x15\xe8\xff\xff\x0d\x0c\xff\xff\x10\x76\x0a\x44\x09\xb2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x78\xff\xff\xff\xff\x10\x0f\x06\xe0" +
	"\xff\xff\xff\xff\x0d\x4c\x0e\x08\x06\x28\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xf0\xff\xff\xff\xff\x0b\xb2\x08\x49\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xf8\xff\xff\xff\xff\x09\x1a\x07\x1c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xfa\x07\x14\x16\x01\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xfd\xff\xff\x0b\xf1\xff\xff\xff\xff\xff\xff\x06\xea\x09\x6a\xff\xff\xff\xff\x06\xe9\x09\x8d\xff\xff\xff\xff\x15\xfb\x08\x85\x08\x6a\x0d\xcd\xff\xff\xff\xff\x15\xf9\xff\xff\x05\xc4\xff\xff\xff\xff\xff\xff\xff\xff\x15\xfc\x15\xfe\xff\xff\x08\x0b\x08\x4b\xff\xff\x07\x3a\x07\xaa\xff\xff\xff\xff\xff\xff\xff\xff\x16\x02\xff\xff\xff\xff\x09\xb7\x10\x11\xff\xff\x09\xd6\xff\xff\xff\xff\xff\xff\x16\x03\xff\xff\xff\xff\xff\xff\x0f\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x0f\xff\xff\x06\x71\x16\x04\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x15\x16\x05\xff\xff\x11\x00\xff\xff\x16\x0c\xff\xff\x0e\x7e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x14\xff\xff\x16\x07\xff\xff\xff\xff\xff\xff\x05\xb2\x16\x09\xff\xff\xff\xff\x09\x1b\xff\xff\xff\xff\xff\xff\x16\x0b\xff\xff\x16\x0a\xff\xff\x16\x06\x16\x11\xff\xff\x0a\xfd\xff\xff\xff\xff\xff\xff\x13\x6b\x08\xe6\x10\xdc\xff\xff\xff\xff\xff\xff\xff\xff\x16\x08\xff\xff\x0d\x72\x06\xc2\x09\x6b\xff\xff\x16\x00\xff\xff\x16\x10\x07\x01\xff\xff\xff\xff\x16\x0e\x16\x12\xff\xff\x0d\xce\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x7c\xff\xff\x16\x30\xff\xff\xff\xff\x10\x47\x16\x17\x07\x7b\xff\xff\x16\x1e\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xdf\xff\xff\x16\x1f\x16\x21\xff\xff\x16\x25\x16\x19\xff\xff\x0c\xc9\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xcf\x16\x29\x16\x1c\xff\xff\x16\x26\xff\xff\xff\xff\xff\xff\x16\x20\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x58\x16\x2a\xff\xff\xff\xff\x0b\xb1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x28\x07\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\x11\x6f\x16\x16\xff\xff\xff\xff\x16\x24\x05\xd6\xff\xff\xff\xff\x16\x18\xff\xff\xff\xff\x10\x38\x16\x1d\x0b\x41\x0d\x45\x16\x13\xff\xff\xff\xff\x16\x23\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x9a\x16\x2d\x07\x11\x08\x9f\xff\xff\xff\xff\xff\xff\xff\xff\x16\x2f\x16\x1a\x16\x2e\xff\xff\x16\x27\x16\x1b\xff\xff\x16\x2b\xff\xff\x16\x2c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x3d\xff\xff\xff\xff\xff\xff\x0e\x0c\xff\xff\x16\x22\xff\xff\xff\xff\x16\x39\xff\xff\xff\xff\xff\xff\x16\x3b\xff\xff\x0d\x56\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xab\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x56\x16\x36\x0c\x88\xff\xff\xff\xff\xff\xff\x16\x3c\x0c\x1e\xff\xff\x16\x33\x16\x40\x16\x3f\xff\xff\x0e\x2d\x16\x3e\x0e\x28\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x42\x16\x35\xff\xff\x08\x06\x16\x38\x0a\xbc\xff\xff\xff\xff\xff\xff\x0e\x80\x16\x3a\x08\x09\xff\xff\x16\x32\x16\x34\x16\x31\xff\xff\xff\xff\x11\x4f\x06\xf9\x16\x37\xff\xff\xff\xff\x16\x41\x06\xd4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\xa5\xff\xff\xff\xff\xff\xff\x06\x3c\xff\xff\xff\xff\x16\x52\xff\xff\xff\xff\x11\x50\x16\x55\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x59\x16\x54\xff\xff\xff\xff\xff\xff\x16\x53\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x50\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x44\xff\xff\xff\xff\x16\x61\x16\x43\xff\xff\x16\x56\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x4e\xff\xff\xff\xff\x16\x49\x16\x46\xff\xff\x16\x47\xff\xff\x16\x4f\xff\xff\xff\xff\xff\xff\x1f\x20\xff\xff\xff\xff\x16\x4c\x09\x1c\x0d\x46\x0c\x44\x16\x4a\xff\xff\x16\x45\xff\xff\xff\xff\x16\x48\xff\xff\xff\xff\xff\xff\xff\xff\x10\xac\x10\x0a\xff\xff\xff\xff\xff\xff\x16\x4d\x16\x57\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x5f\x16\x58\xff\xff\xff\xff\x16\x65\xff\xff\x16\x63\xff\xff\xff\xff\xff\xff\xff\xff\x16\x5e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x5d\xff\xff\x0d\x4e\xff\xff\x0c\x45\xff\xff\x16\x5b" +
	"\xff\xff\xff\xff\x16\x59\xff\xff\xff\xff\x16\x60\xff\xff\xff\xff\xff\xff\xff\xff\x16\x66\x0e\xf3\x16\x6c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x67\x16\x6a\x16\x64\xff\xff\xff\xff\x0d\x14\xff\xff\x0f\x17\xff\xff\x16\x5a\xff\xff\xff\xff\x16\x62\x0a\xfe\xff\xff\x10\x4d\x16\x76\x16\x69\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xa0\x06\x61\x06\xfe\xff\xff\xff\xff\x16\x51\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xff\x16\x6e\xff\xff\x16\x75\x0a\x77\x07\x12\xff\xff\xff\xff\x0c\xcd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x6b\xff\xff\xff\xff\x16\x70\x16\x74\xff\xff\xff\xff\x07\xf4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xab\x16\x72\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x80\xff\xff\x0e\x09\x16\x71\xff\xff\xff\xff\xff\xff\x16\x73\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x6d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x6f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x00\x0c\xe8\xff\xff\xff\xff\xff\xff\x16\x7a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x78\x08\xe7\xff\xff\x16\x77\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x80\xff\xff\xff\xff\xff\xff\xff\xff\x15\xf7\xff\xff\xff\xff\xff\xff\x16\x79\xff\xff\x16\x7b\x16\x7c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x8b\xff\xff\x16\x87\xff\xff\x16\x0d\xff\xff\xff\xff\xff\xff\xff\xff\x16\x86\xff\xff\xff\xff\xff\xff\xff\xff\x16\x85\xff\xff\xff\xff\x16\x82\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x68\x16\x84\x16\x83\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x89\xff\xff\x11\x45\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x8c\x08\x39\xff\xff\xff\xff\x16\x88\x16\x8a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xa5\xff\xff\x16\x8d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x91\x16\x8e\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\x10\xd3\x16\x8f\xff\xff\xff\xff\xff\xff\xff\xff\x16\x5c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\x92\xff\xff\xff\xff\xff\xff\x16\x93\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x14\xff\xff\x16\x95\x08\x87\x0a\x1f\xff\xff\x08\x13\xff\xff\xff\xff\xff\xff\x06\x62\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xbe\xff\xff\xff\xff\xff\xff\xff\xff\x16\x97\x16\x96\x16\x99\x07\x9c\xff\xff\xff\xff\x08\x14\x07\x3c\xff\xff\xff\xff\xff\xff\xff\xff\x16\x9c\xff\xff\xff\xff\xff\xff\x16\x9b\xff\xff\x16\x9d\xff\xff\xff\xff\x06\x8c\xff\xff\x0c\xd6\xff\xff\x16\x9e\xff\xff\xff\xff\x07\x3d\x16\xa0\xff\xff\xff\xff\xff\xff\xff\xff\x16\x9f\xff\xff\x16\xa1\xff\xff\xff\xff\xff\xff\x16\xa2\xff\xff\x16\xa3\x09\xfe\x0b\xb3\x09\x5f\xff\xff\x0f\x50\xff\xff\xff\xff\x0f\xa0\x11\x63\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x15\xff\xff\xff\xff\xff\xff\x09\x8e\x11\x30\xff\xff\xff\xff\xff\xff\x16\xa4\x16\xa5\xff\xff\x0a\x00\xff\xff\xff\xff\xff\xff\x16\xa6\x16\xa7\xff\xff\xff\xff\x16\xa9\x16\xa8\xff\xff\x0f\xf7\xff\xff\xff\xff\x0a\xbd\x0a\x6a\x09\xe3\xff\xff\x16\xaa\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xac\x0b\x42\xff\xff\x16\xab\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xad\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xae\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xaf\x16\xb0\xff\xff\xff\xff\xff\xff\x16\xb1\xff\xff\x16\xb3\x16\xb2\x16\xb4\x06\x63\x0c\xe9\xff\xff\x16\xb5\xff\xff\xff\xff\x09\xc5\x06\xeb\x16\xb6\xff\xff\xff\xff\x0d\xa1\x13\x4a\xff\xff\xff\xff\xff\xff\xff\xff\x07\x82\x16\xb7\xff\xff\xff\xff\xff\xff\xff\xff\x16\xb8\xff\xff\x0f\xaa\x10\x08\xff\xff\xff\xff\xff\xff\x0e\x05\x16\xb9\x0e\xe4\xff\xff\xff\xff\xff\xff\x0e\xf9\xff\xff\xff\xff\x10\x51\xff\xff\xff\xff\xff\xff\x16\xba\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xbc\x16\xbb\xff\xff\xff\xff\x16\xbe\xff\xff\xff\xff\xff\xff\x16\xbd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xc1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x01\xff\xff\x10\x2f\xff\xff\x16\xc2\x16\xc3\xff\xff\xff\xff\x07\x83\xff\xff\xff\xff\xff\xff\x16\xc4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xc6\x16\xc5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x85\xff\xff\xff\xff\x0f\x18\x06\x29\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xc3\xff\xff\x0d\x73\x0a\xa0\x07\xc1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xc4\xff\xff\x0a\x2c\xff\xff\xff\xff\xff\xff\xff\xff\x16\xc8\xff\xff\x07\x3e\xff\xff\xff\xff\x06\x58\xff\xff\xff\xff\x0e\x30\x16\xc7\x09\x1d\x0c\xf2\xff\xff\x16\xc9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xd1\xff\xff\x16\xca\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x7f\xff\xff\x07\xc2\x16\xd2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x88\xff\xff\xff\xff\x07\x84\x16\xd0\xff\xff\xff\xff\x16\xce\x16\xcb\x10\xc0\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x3e\xff\xff\xff\xff\xff\xff\x0e\x17\x16\xcc\xff\xff\xff\xff\x16\xd4\xff\xff\x16\xd3\x08\x42\xff\xff\xff\xff\x06\x6b\xff\xff\xff\xff\x09\x79\x16\xcd\x16\xcf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xf6\x0c\xb2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x17\xff\xff\xff\xff\x16\xdc\xff\xff\xff\xff\x16\xdd\xff\xff\x06\x8d\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x66\x10\x7b\x16\xdf\x0a\x21\x0b\x00\x16\xd8\x16\xde\x06\x48\xff\xff\x07\xf5\xff\xff\xff\xff\x16\xd5\x16\xda\xff\xff\xff\xff\xff\xff\x0b\xf2\x0e\x91\xff\xff\x0e\xe5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xd7\xff\xff\x0f\xc0\xff\xff\x16\xd9\xff\xff\x16\xe2\xff\xff\x16\xe0\xff\xff\x16\xdb\xff\xff\xff\xff\xff\xff\x0f\xc1\x0e\x67\x07\xc3\xff\xff\x0d\x84\xff\xff\xff\xff\x0d\x0d\xff\xff\x16\xe3\xff\xff\xff\xff\xff\xff\xff\xff\x16\xe1\x0c\x97\x16\xd6\xff\xff\x06\x2a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xad\x16\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xed\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xf4\xff\xff\x16\xea\xff\xff\x10\xcc\xff\xff\xff\xff\x0d\xf4\x16\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x43\xff\xff\xff\xff\xff\xff\x06\x2b\x09\x1e\x16\xe7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x86\x16\xec\xff\xff\x16\xeb\x16\xe6\xff\xff\x16\xe9\xff\xff\xff\xff\x07\x08\xff\xff\x16\xe8\x0e\x68\xff\xff\xff\xff\x10\xec\xff\xff\xff\xff\x0b\x32\x0b\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xf4\x16\xf2\xff\xff\x0f\x2c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xef\x16\xf1\xff\xff\x06\x19\xff\xff\xff\xff\x09\x1f\x11\x51\xff\xff\x06\xdc\xff\xff\x0f\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xc1\xff\xff\xff\xff\x06\xc3\x0b\x5a\x16\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x16\xf8\xff\xff\xff\xff\x0b\x01\xff\xff\xff\xff\xff\xff\x10\x8f\xff\xff\x16\xf5\xff\xff\xff\xff\xff\xff\xff\xff\x16\xf0\xff\xff\x16\xf6\xff\xff\xff\xff\xff\xff\x11\x1c\xff\xff\x0d\xd3\x0e\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xd5\xff\xff\xff\xff\x06\x34\xff\xff\xff\xff\x16\xfc\xff\xff\xff\xff\x16\xff\xff\xff\xff\xff\xff\xff\x11\x01\xff\xff\xff\xff\xff\xff\x10\xc4\xff\xff\xff\xff\xff\xff\xff\xff\x17\x06\x17\x00\x16\xfd\xff\xff\xff\xff\xff\xff\x11\x12\x17\x03\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xa9\x17\x05\xff\xff\xff\xff\x17\x0a\xff\xff\xff\xff\x0d\xd1\x17\x08\xff\xff\xff\xff\xff\xff\xff\xff\x17\x02\xff\xff\xff\xff\x0c\xd7\xff\xff\xff\xff\x17\x09\xff\xff\x16\xfe\xff\xff\x17\x04\xff\xff\x17\x0b\x05\xfa\x17\x01\xff\xff\x17\x0c\xff\xff\xff\xff\x0b\x5b\xff\xff\x0a\xbe\xff\xff\x0f\x63\xff\xff\x09\x6c\xff\xff\x16\xf9\x17\x07\x0d\x99\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xb4\xff\xff\x07\x09\x09\x8f\x0b\x02\x16\xfb\x0a\xa1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x6b\xff\xff\x16\xfa\xff\xff\xff\xff\xff\xff\x17\x10\x0a\xcd\x08\xb8\xff\xff\x17\x1f\xff\xff\x17\x19\x07\xd4\x0d\xae\xff\xff\x17\x14\x17\x1d\x05\xad\x06\x11\xff\xff\xff\xff\x06\x77\xff\xff\x17\x16\x0c\x6a\x17\x0d\x17\x0f\x09\x20\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x20\xff\xff\x17\x1b\xff\xff\xff\xff\xff\xff\x17\x13\xff\xff\xff\xff\xff\xff\xff\xff\x17\x1a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x29\xff\xff\xff\xff\x17\x18\x17\x1c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xce\xff\xff\x0b\x03\xff\xff\xff\xff\x0c\xd8\xff\xff\xff\xff\xff\xff\x17\x12\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x8e\xff\xff\xff\xff\xff\xff\x17\x15\xff\xff\xff\xff\x17\x0e\x0d\xd2\xff\xff\xff\xff\x17\x11\xff\xff\xff\xff\xff\xff\x17\x17\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x70\x0a\x3c\x10\x1e\xff\xff\x17\x21\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xac\xff\xff\xff\xff\x17\x2d\x08\xb9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xc0\xff\xff\x17\x23\xff\xff\xff\xff\xff\xff\x10\xed\x09\x21\xff\xff\x17\x30\xff\xff\xff\xff\x05\xec\xff\xff\xff\xff\x17\x2e\xff\xff\xff\xff\xff\xff\xff\xff\x17\x22\xff\xff\xff\xff\xff\xff\xff\xff\x17\x28\xff\xff\xff\xff\x17\x2a\xff\xff\xff\xff\xff\xff\x10\xae\x17\x25\xff\xff\xff\xff\x0d\x8d\xff\xff\xff\xff\x17\x27\xff\xff\xff\xff\xff\xff\xff\xff\x17\x2f\xff\xff\x17\x29\x10\x45\xff\xff\xff\xff\xff\xff\x17\x24\xff\xff\x0a\x20\x17\x3c\xff\xff\xff\xff\xff\xff\xff\xff\x07\x0a\xff\xff\x17\x26\x17\x2b\x17\x2c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xaa\x0c\x98\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x34\xff\xff\xff\xff\x17\x3a\xff\xff\xff\xff\x17\x38\xff\xff\x0d\x88\xff\xff\xff\xff\x17\x42\x17\x35\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x36\x17\x1e" +
	"\xff\xff\x07\xd9\x0f\x19\xff\xff\xff\xff\xff\xff\x0a\x3d\xff\xff\xff\xff\x09\x57\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x52\xff\xff\x17\x32\xff\xff\x17\x41\x06\x49\x0c\x46\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x99\xff\xff\x07\x3f\x11\x38\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x1f\x0d\x50\xff\xff\xff\xff\xff\xff\xff\xff\x17\x39\x17\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x11\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x40\x17\x37\xff\xff\x17\x31\xff\xff\xff\xff\xff\xff\x07\x41\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x89\xff\xff\xff\xff\xff\xff\x17\x4e\xff\xff\xff\xff\x17\x49\x0b\xf6\xff\xff\xff\xff\x07\x03\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xc1\xff\xff\x17\x52\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x4b\x0d\x2a\x17\x48\x0d\x57\xff\xff\xff\xff\xff\xff\x17\x6b\xff\xff\xff\xff\xff\xff\x17\x45\xff\xff\x17\x44\xff\xff\x17\x4d\xff\xff\xff\xff\xff\xff\x17\x47\x17\x46\x17\x4c\xff\xff\x0b\x9f\xff\xff\x17\x43\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x4f\xff\xff\xff\xff\x17\x50\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x40\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x55\xff\xff\x17\x54\x17\x56\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x59\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xa2\xff\xff\x17\x53\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x57\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x83\x0c\xb7\x17\x51\x0e\x5a\xff\xff\xff\xff\x17\x58\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x5d\x17\x5b\xff\xff\xff\xff\x17\x5e\xff\xff\xff\xff\x17\x61\xff\xff\xff\xff\xff\xff\x17\x5a\x09\x4a\x0e\x47\xff\xff\xff\xff\x16\xf7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xd4\x17\x5c\xff\xff\x17\x60\x0c\xb3\xff\xff\x17\x5f\xff\xff\x17\x4a\xff\xff\xff\xff\x1d\x89\xff\xff\xff\xff\xff\xff\x17\x64\xff\xff\xff\xff\xff\xff\x17\x68\xff\xff" +
	"\xff\xff\x17\x66\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x62\xff\xff\x17\x63\xff\xff\xff\xff\xff\xff\x17\x67\xff\xff\x17\x65\xff\xff\xff\xff\xff\xff\x0f\x2d\xff\xff\xff\xff\x17\x6d\xff\xff\x17\x6a\x17\x69\xff\xff\x17\x6c\x0e\x12\x17\x6e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x15\x0c\xab\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xa3\xff\xff\xff\xff\xff\xff\x17\x6f\xff\xff\x17\x71\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x70\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x33\xff\xff\xff\xff\xff\xff\xff\xff\x17\x72\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x25\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x73\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x8e\xff\xff\xff\xff\xff\xff\x0d\xd4\x06\xc4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xc4\xff\xff\xff\xff\xff\xff\x0a\x5c\x09\x90\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x46\x0b\x86\xff\xff\xff\xff\xff\xff\x06\x4a\xff\xff\xff\xff\xff\xff\x17\x75\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x74\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x78\x0c\xd9\x17\x7b\x17\x76\xff\xff\xff\xff\xff\xff\x17\x7a\xff\xff\xff\xff\xff\xff\xff\xff\x17\x79\x0d\x9f\x05\xd7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x33\xff\xff\xff\xff\x17\x7d\xff\xff\xff\xff\xff\xff\x06\x07\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x80\xff\xff\xff\xff\xff\xff\x17\x7e\xff\xff\x17\x7c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x77\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xc2\xff\xff\xff\xff\xff\xff\x17\x82\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x81\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x4b\xff\xff\xff\xff\xff\xff\xff\xff\x17\x84\x0f\x70\xff\xff\x17\x83\xff\xff\xff\xff\xff\xff\xff\xff\x10\x33\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x05\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x12\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x04\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x39\xff\xff\xff\xff\x17\x8a\xff\xff\x0b\xf7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x86\x17\x8b\xff\xff\xff\xff\x06\x4c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x89\xff\xff\x0e\x81\x17\x85\x17\x88\x0b\x06\xff\xff\x0e\xcf\xff\xff\xff\xff\x17\x8c\xff\xff\x0a\x4f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xf8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x8f\xff\xff\xff\xff\xff\xff\x17\x87\xff\xff\x08\x46\xff\xff\xff\xff\xff\xff\xff\xff\x17\x8d\xff\xff\xff\xff\xff\xff\xff\xff\x10\xaf\x17\x90\xff\xff\xff\xff\xff\xff\x1f\x24\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xae\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x91\xff\xff\xff\xff\xff\xff\x17\x92\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x4d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x94\xff\xff\xff\xff\xff\xff\xff\xff\x17\x95\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x52\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xd5\x17\x97\xff\xff\xff\xff\xff\xff\xff\xff\x17\x99\xff\xff\x11\x13\xff\xff\x17\x96\xff\xff\x17\x98\x06\x4d\xff\xff\x17\x93\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x12\xfa\x17\x9a\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x47\x09\xd7\x17\x9c\xff\xff\xff\xff\xff\xff\xff\xff\x17\x9b\x0b\x43\x12\x97\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\x9d\xff\xff\xff\xff\xff\xff\x17\x9f\xff\xff\x17\x8e\x17\x9e\xff\xff\xff\xff\x17\xa0" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x9a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xa1\xff\xff\xff\xff\x17\xa2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xa3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xa4\xff\xff\x0d\x5c\xff\xff\x17\xa6\x17\xa5\xff\xff\xff\xff\x17\xa7\xff\xff\x17\xa8\xff\xff\xff\xff\x0a\x5d\x0f\x43\xff\xff\xff\xff\xff\xff\x10\x6a\x17\xa9\x17\xaa\x0c\x35\x0a\x22\x17\xab\x17\xac\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xad\x0f\x90\x0e\xc5\xff\xff\xff\xff\x17\xae\x0e\x76\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x2b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xaf\x06\xa5\xff\xff\x07\xcd\xff\xff\x10\x44\xff\xff\x10\x34\xff\xff\x06\x72\x11\x53\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xf1\xff\xff\x0f\x68\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xb5\xff\xff\x17\xb0\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x01\xff\xff\xff\xff\xff\xff\x08\xa1\x17\xb1\xff\xff\x09\x92\x17\xb3\x17\xb2\xff\xff\xff\xff\xff\xff\xff\xff\x17\xb4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xb5\xff\xff\xff\xff\xff\xff\x17\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x9d\xff\xff\x17\xb7\xff\xff\xff\xff\xff\xff\xff\xff\x17\xb8\xff\xff\xff\xff\xff\xff\xff\xff\x08\xa2\xff\xff\xff\xff\x0e\xc6\xff\xff\xff\xff\x17\xba\xff\xff\xff\xff\xff\xff\x0b\x33\xff\xff\xff\xff\x17\xb9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xf6\x17\xbb\x17\xbd\xff\xff\x17\xbc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xbe\xff\xff\x08\xcf\xff\xff\x17\xbf\xff\xff\xff\xff\xff\xff\xff\xff\x08\x27\xff\xff\x0c\x1f\xff\xff\x09\x5d\xff\xff\xff\xff\xff\xff\xff\xff\x17\xc1\x17\xc2\x17\xc0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x6b\xff\xff\xff\xff\x0e\x06\x07\xf7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xc4\x0c\xcb\x17\xc3\xff\xff\xff\xff\x11\x54\x0e\x82\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xc7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xc9\x17\xc6\xff\xff\xff\xff\xff\xff\x10\x52\x17\xc8\x17\xca\xff\xff\x11\x02\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xce\xff\xff\xff\xff\xff\xff\x17\xcd\x0d\x16\x0e\x4c\xff\xff\xff\xff\x08\xa3\x17\xcc\xff\xff\xff\xff\xff\xff\xff\xff\x17\xcb\xff\xff\x10\x90\x10\x91\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xcf\x06\x4e\xff\xff\xff\xff\xff\xff\xff\xff\x09\x56\x0a\x02\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xd0\x17\xd1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xd3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xa2\xff\xff\xff\xff\xff\xff\xff\xff\x17\xd5\xff\xff\x17\xd4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xd6\xff\xff\x06\xec\xff\xff\xff\xff\x17\xd8\xff\xff\xff\xff\x17\xd7\xff\xff\x17\xda\x17\xd9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xba\xff\xff\xff\xff\x10\xe6\xff\xff\x08\x0a\xff\xff\x06\x64\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x28\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x5f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x26\x17\xdc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xde\xff\xff\xff\xff\xff\xff\xff\xff\x17\xdf\xff\xff\x06\x8f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xdb\xff\xff\x09\xd8\xff\xff\xff\xff\x0d\x3f\x17\xdd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xe2\xff\xff\x0a\x6c\xff\xff\xff\xff\xff\xff\xff\xff\x17\xe0\xff\xff\xff\xff\xff\xff\xff\xff\x08\x5d\xff\xff\xff\xff\x0e\xc7\x17\xe1\xff\xff\xff\xff\x17\xfc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xe7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xbb\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\x07\xc5\xff\xff\x17\xe4\x10\xdd\xff\xff\xff\xff\x10\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xb4\xff\xff\xff\xff\x17\xe6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xe8\x11\x14\x08\x15\x0e\xfa\x0e\x69\xff\xff\xff\xff\xff\xff\x17\xe9\xff\xff\xff\xff\xff\xff\xff\xff\x17\xeb\xff\xff\x17\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xea\xff\xff\xff\xff\xff\xff\x17\xed\x08\xe8\x06\x2c\x17\xef\xff\xff\x0b\x90\x17\xec\x11\x1a\xff\xff\xff\xff\x17\xf2\x1f\x22\xff\xff\xff\xff\xff\xff\xff\xff\x17\xf0\x17\xf3\xff\xff\xff\xff\xff\xff\xff\xff\x17\xe5\x17\xf1\xff\xff\xff\xff\x09\x7a\xff\xff\xff\xff\x17\xf4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xf5\xff\xff\xff\xff\xff\xff\xff\xff\x10\xde\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xf7\xff\xff\xff\xff\xff\xff\x17\xe3\xff\xff\xff\xff\xff\xff\xff\xff\x17\xf8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x23\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x17\xf9\xff\xff\xff\xff\xff\xff\xff\xff\x17\xfa\xff\xff\xff\xff\xff\xff\xff\xff\x17\xfb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x1a\xff\xff\xff\xff\xff\xff\x18\x00\xff\xff\x0f\x1a\x18\x01\xff\xff\xff\xff\x07\x22\x18\x02\xff\xff\x18\x03\xff\xff\xff\xff\xff\xff\xff\xff\x18\x04\xff\xff\x18\x06\x18\x07\x18\x05\xff\xff\xff\xff\xff\xff\x0f\x32\x18\x09\x18\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\x18\x0b\x18\x0a\x18\x0c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x0d\x18\x0f\x18\x0e\xff\xff\xff\xff\x09\x59\xff\xff\x18\x11\xff\xff\x18\x10\xff\xff\xff\xff\x07\x43\xff\xff\x0b\x72\xff\xff\x0d\x9b\xff\xff\x18\x12\x0b\xb6\xff\xff\xff\xff\xff\xff\x09\xd9\xff\xff\x06\x59\x18\x13\xff\xff\x10\xb0\xff\xff\xff\xff\x0f\xa1\x18\x14\xff\xff\xff\xff\xff\xff\x0d\xa3\x10\x92\x09\x22\x0b\x5c\xff\xff\xff\xff\xff\xff\x0c\xea\x12\x72\xff\xff\x0d\x2c\x06\xa6\x18\x15\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x16\xff\xff\x18\x1b\xff\xff\xff\xff\x18\x19\x18\x18\x15\x80\x06\xc5\x18\x17\xff\xff\x05\xd8\xff\xff\x0e\xa8\xff\xff\xff\xff\x0e\xc8\xff\xff\xff\xff\xff\xff\xff\xff\x10\xef\x18\x1c\x18\x1a\x0c\xfb\x0b\xa4\xff\xff\xff\xff\x0e\xa9\xff\xff\x0f\x0c\xff\xff\x18\x1e\x10\xea\x08\x6c\x18\x1f\xff\xff\x18\x1d\x0e\xd4\x18\x20\xff\xff\x18\x21\xff\xff\xff\xff\x05\xd9\xff\xff\xff\xff\x0b\x34\x18\x26\xff\xff\x18\x23\x0e\x2b\x18\x22\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x85\xff\xff\xff\xff\x18\x29\xff\xff\xff\xff\xff\xff\x18\x24\x18\x25\xff\xff\x18\x28\x18\x27\x0f\x04\xff\xff\xff\xff\x0c\x21\x0c\x20\xff\xff\x07\x9e\xff\xff\xff\xff\x18\x2a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x2b\xff\xff\xff\xff\x18\x2c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x2e\xff\xff\x18\x2d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x35\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x36\x0e\xe6\x18\x30\xff\xff\x18\x32\xff\xff\xff\xff\x18\x34\x0b\x5d\xff\xff\xff\xff\x18\x35\x18\x33\x0a\x3e\xff\xff\xff\xff\xff\xff\x18\x2f\x18\x31\xff\xff\x0f\x21\xff\xff\x0b\x07\xff\xff\xff\xff\x18\x38\xff\xff\xff\xff\x18\x37\xff\xff\xff\xff\xff\xff\xff\xff\x18\x39\xff\xff\x0a\x24\x09\x6d\xff\xff\xff\xff\x0d\xd7\x18\x3a\xff\xff\x0d\x49\xff\xff\xff\xff\x18\x3c\xff\xff\xff\xff\xff\xff\x10\xdf\x18\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x49\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x42\xff\xff\x18\x44\x18\x45\x0c\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x43\xff\xff\x18\x40\xff\xff\x18\x3d\x18\x3e" +
	"\xff\xff\x18\x41\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x48\xff\xff\x18\x46\xff\xff\x18\x47\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x49\x18\x4b\x18\x4c\x18\x4d\xff\xff\x18\x4e\xff\xff\xff\xff\x18\x4a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x50\xff\xff\xff\xff\xff\xff\x18\x4f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x51\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x03\xff\xff\xff\xff\xff\xff\x18\x54\x18\x52\x18\x53\xff\xff\xff\xff\xff\xff\x07\x60\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x7c\xff\xff\xff\xff\xff\xff\x0f\x88\xff\xff\x18\x56\xff\xff\xff\xff\xff\xff\x18\x55\xff\xff\xff\xff\xff\xff\xff\xff\x18\x57\x18\x58\xff\xff\xff\xff\xff\xff\xff\xff\x18\x5c\x18\x59\x18\x5a\x18\x5b\xff\xff\x18\x5d\xff\xff\xff\xff\xff\xff\x18\x5e\xff\xff\x18\x5f\xff\xff\xff\xff\xff\xff\x18\x60\xff\xff\x18\x61\xff\xff\x0e\xad\x0d\xaf\x18\x62\x0e\x92\x0f\x13\xff\xff\x18\x63\xff\xff\xff\xff\x18\x64\x0d\x89\xff\xff\x06\xc6\x09\x23\x18\x65\xff\xff\xff\xff\x18\x66\xff\xff\xff\xff\x18\x67\xff\xff\x09\xc8\xff\xff\xff\xff\x18\x69\xff\xff\xff\xff\x18\x68\xff\xff\xff\xff\x18\x6a\x18\x6b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xe7\xff\xff\x18\x6c\xff\xff\xff\xff\xff\xff\x18\x6d\xff\xff\xff\xff\x1f\x09\x18\x6e\x18\x6f\x18\x70\xff\xff\xff\xff\xff\xff\xff\xff\x09\xcd\xff\xff\xff\xff\x18\x71\x0e\x75\xff\xff\xff\xff\x0f\xfe\xff\xff\x06\x2d\xff\xff\x06\x36\xff\xff\xff\xff\x18\x72\xff\xff\xff\xff\xff\xff\xff\xff\x18\x74\xff\xff\xff\xff\xff\xff\x18\x73\x0d\xd0\xff\xff\xff\xff\xff\xff\x0b\xb7\x16\x98\xff\xff\x18\x75\x10\x3f\xff\xff\x18\x76\xff\xff\x07\x44\x0e\xd5\x18\x77\xff\xff\x18\x78\xff\xff\xff\xff\x18\x79\xff\xff\xff\xff\xff\xff\x10\x5a\xff\xff\xff\xff\xff\xff\x10\x53\xff\xff\x0d\x3c\xff\xff\xff\xff\xff\xff\x0c\x4a\xff\xff\xff\xff\x18\x7b\xff\xff\xff\xff\x0a\xc2\xff\xff" +
	"\xff\xff\x0b\x08\xff\xff\xff\xff\x18\x7e\xff\xff\xff\xff\x18\x7d\x18\x7c\x0e\xfb\xff\xff\x07\x45\x08\xa7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x84\xff\xff\xff\xff\x18\x81\x0b\x5e\x10\x30\xff\xff\xff\xff\xff\xff\x18\x80\x18\x82\x18\x83\xff\xff\xff\xff\x18\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x85\x18\x86\xff\xff\x0d\x2d\xff\xff\x07\x61\xff\xff\xff\xff\xff\xff\x0d\x05\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x87\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x88\x18\x8b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x87\xff\xff\x0e\x02\xff\xff\x18\x8c\x0f\xf2\xff\xff\x18\x89\xff\xff\xff\xff\x18\x8a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x8f\xff\xff\xff\xff\xff\xff\xff\xff\x18\x8e\x18\x8d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x91\xff\xff\xff\xff\x18\x90\xff\xff\xff\xff\x18\x92\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x94\xff\xff\x18\x93\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x8b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xb5\x11\x04\xff\xff\xff\xff\x18\x95\xff\xff\xff\xff\x0d\xf5\xff\xff\xff\xff\x18\x96\xff\xff\xff\xff\x18\x97\xff\xff\x18\x9b\x18\x99\x18\x9a\xff\xff\x18\x98\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x9c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x9d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\x9e\xff\xff\xff\xff\x18\x9f\x10\x35\x18\xa0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x6e\x18\xa1\xff\xff\x0c\xed\xff\xff\x0e\x8a\xff\xff\x08\x29\xff\xff\xff\xff\xff\xff\x0c\xda\x18\xa2\x07\xf8\xff\xff\xff\xff\xff\xff\x0b\xce\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xa3\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\x09\x7b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xa4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xa5\xff\xff\x08\xa4\x09\x93\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xa7\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xb5\x09\x94\x07\xad\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xc3\xff\xff\x0e\x6a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xb6\xff\xff\xff\xff\xff\xff\xff\xff\x09\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xa9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x09\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xf0\x09\x24\xff\xff\xff\xff\x08\xa5\xff\xff\xff\xff\x0e\xa1\xff\xff\x18\xab\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xad\xff\xff\xff\xff\xff\xff\xff\xff\x08\xe9\xff\xff\xff\xff\xff\xff\xff\xff\x18\xac\x0d\x74\xff\xff\xff\xff\xff\xff\xff\xff\x18\xaf\x06\xd6\x18\xaa\xff\xff\xff\xff\x0e\xe8\xff\xff\x06\x0f\xff\xff\x09\xaa\xff\xff\x11\x71\xff\xff\xff\xff\x18\xae\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xb0\xff\xff\xff\xff\xff\xff\x0f\x89\xff\xff\x0b\xd7\x18\xb2\xff\xff\xff\xff\xff\xff\xff\xff\x18\xb3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xb1\xff\xff\xff\xff\xff\xff\xff\xff\x06\xed\xff\xff\x18\xb9\xff\xff\x18\xb8\xff\xff\xff\xff\x0a\x25\xff\xff\xff\xff\xff\xff\x18\xba\x18\xb5\xff\xff\xff\xff\xff\xff\x18\xbb\x18\xb6\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xd6\x18\xb4\xff\xff\xff\xff\x18\xb7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xc1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xc0\x10\x01\xff\xff\xff\xff\xff\xff\x18\xbc\xff\xff\xff\xff\x05\xe9\xff\xff\xff\xff\xff\xff\xff\xff\x18\xc3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xc2\xff\xff\xff\xff" +
	"\xff\xff\x0b\x0a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xc4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x22\xff\xff\xff\xff\x18\xc6\x18\xc5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xc7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xa6\xff\xff\xff\xff\xff\xff\x18\xa8\x18\xc9\x18\xc8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x26\xff\xff\x11\x27\xff\xff\x0a\x50\xff\xff\x18\xca\x08\x56\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x9f\x07\x86\x0a\x03\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x93\xff\xff\xff\xff\x18\xd0\xff\xff\x18\xcf\x0c\x23\x18\xcc\xff\xff\xff\xff\x18\xce\xff\xff\xff\xff\x0a\xaa\x0b\x5f\x18\xcd\x18\xcb\xff\xff\x0e\x49\xff\xff\xff\xff\x0b\x0b\xff\xff\xff\xff\x0f\x1b\xff\xff\xff\xff\xff\xff\xff\xff\x09\x95\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xd8\xff\xff\xff\xff\x18\xd1\xff\xff\xff\xff\xff\xff\xff\xff\x18\xd2\x18\xe8\x08\x16\xff\xff\xff\xff\x11\x5c\x0c\x14\xff\xff\xff\xff\xff\xff\xff\xff\x18\xd3\xff\xff\xff\xff\x06\x90\x0d\x75\x0f\x5f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xd4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xda\x18\xd5\xff\xff\xff\xff\x18\xd7\xff\xff\xff\xff\xff\xff\x18\xd8\xff\xff\x0e\x48\xff\xff\xff\xff\x18\xd9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xda\x18\xdb\xff\xff\xff\xff\x08\x17\x06\x91\x0e\x03\x0a\x87\x0a\x04\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xdc\xff\xff\x0a\x88\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x88\x0f\x22\xff\xff\xff\xff\x18\xdd\xff\xff\xff\xff\x0e\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x24\xff\xff\x18\xe0\xff\xff\x18\xe1\x0e\x89\xff\xff\x0b\x60\x18\xde\xff\xff\x0d\x01\xff\xff\xff\xff\x18\xdf\xff\xff\xff\xff\xff\xff\x0b\x0c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xda\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\x07\x88\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xe2\xff\xff\xff\xff\x0d\x76\xff\xff\x18\xe3\x0b\xc5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x2b\xff\xff\xff\xff\x0f\x02\x18\xe4\x18\xe5\x0c\xf4\xff\xff\x11\x05\xff\xff\xff\xff\x18\xe7\x18\xe6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x6d\xff\xff\xff\xff\x18\xe9\x05\xee\xff\xff\xff\xff\xff\xff\xff\xff\x18\xec\xff\xff\xff\xff\xff\xff\x18\xea\x06\x92\x08\x6d\x18\xeb\x09\x25\x09\x52\xff\xff\x0f\xa4\x18\xed\xff\xff\xff\xff\x0f\xf3\xff\xff\xff\xff\x18\xef\xff\xff\xff\xff\xff\xff\x0b\xcf\x06\x2e\x06\x78\x05\xaa\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xf0\x18\xf1\x0b\x35\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xf2\xff\xff\x06\xee\xff\xff\xff\xff\xff\xff\xff\xff\x18\xf4\xff\xff\xff\xff\xff\xff\x08\x8a\xff\xff\x07\xc6\xff\xff\xff\xff\x18\xf5\x08\x33\xff\xff\xff\xff\x18\xf6\xff\xff\x0b\xfa\xff\xff\x0e\x0b\xff\xff\x0b\xde\x09\xb3\xff\xff\xff\xff\xff\xff\x18\xf7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x02\x0c\x4b\xff\xff\x18\xf9\x18\xfb\x18\xf8\x18\xfa\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x41\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x18\xfc\x08\x45\xff\xff\xff\xff\xff\xff\x07\xc7\x10\xb1\x18\xfe\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x00\xff\xff\xff\xff\xff\xff\x06\x0d\xff\xff\xff\xff\xff\xff\xff\xff\x19\x03\xff\xff\xff\xff\xff\xff\x07\x16\x19\x02\x19\x01\xff\xff\x19\x05\x18\xfd\xff\xff\x19\x06\x10\xe7\xff\xff\x19\x07\xff\xff\x19\x08\xff\xff\xff\xff\x13\x72\x19\x0a\xff\xff\x19\x09\xff\xff\xff\xff\xff\xff\x19\x0b\x19\x0c\xff\xff\x10\xf3\x19\x0d\xff\xff\x1d\xed\x0b\x0d\x19\x0e\x19\x0f\x0a\xb6\xff\xff\x0d\xf6\x19\x10\xff\xff\xff\xff\xff\xff\x0c\xc7\xff\xff\xff\xff\x19\x11\xff\xff\x0c\xdb\x19\x12\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xe3\xff\xff\x12\x1e\x0c\xfc\x0a\x31\xff\xff\xff\xff\xff\xff\xff\xff\x07\x46" +
	"\xff\xff\xff\xff\x19\x13\xff\xff\x19\x20\xff\xff\x19\x16\xff\xff\x07\xc8\xff\xff\x19\x15\x19\x22\xff\xff\xff\xff\xff\xff\x19\x14\xff\xff\x0b\x0e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x18\x19\x19\xff\xff\x0d\x8a\xff\xff\xff\xff\x19\x1a\xff\xff\x06\xfd\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x79\x0f\x44\xff\xff\x19\x1c\xff\xff\xff\xff\xff\xff\x0c\xa6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x17\xff\xff\x19\x1b\x19\x1d\xff\xff\xff\xff\x09\xb9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x24\x0f\x0d\xff\xff\x0e\xa4\x0d\xd9\xff\xff\x08\x18\x19\x23\x19\x21\xff\xff\x0e\xb3\x19\x1e\x0c\xfd\x0d\xdb\xff\xff\x0d\xda\xff\xff\x09\xb4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x36\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x26\xff\xff\x19\x28\xff\xff\xff\xff\xff\xff\xff\xff\x19\x2b\xff\xff\x19\x2c\xff\xff\x19\x29\x19\x2a\xff\xff\xff\xff\x19\x27\x19\x25\xff\xff\xff\xff\xff\xff\xff\xff\x19\x1f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x8d\x06\x93\xff\xff\xff\xff\xff\xff\x19\x33\xff\xff\x19\x30\xff\xff\x19\x35\xff\xff\xff\xff\x19\x34\xff\xff\x0e\x93\x10\x25\xff\xff\x09\xda\x19\x2e\x19\x37\x19\x32\xff\xff\x19\x31\x19\x2d\xff\xff\x19\x2f\xff\xff\x07\x47\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xdc\xff\xff\xff\xff\x0b\xfb\xff\xff\xff\xff\xff\xff\x0e\xa0\xff\xff\xff\xff\x19\x3c\xff\xff\xff\xff\xff\xff\x0e\xa2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xdf\x19\x39\xff\xff\xff\xff\x0e\xcd\xff\xff\x19\x3d\x0f\x91\xff\xff\x0c\xfa\xff\xff\x19\x38\x19\x3a\xff\xff\xff\xff\x19\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x3e\xff\xff\xff\xff\x0a\x42\xff\xff\xff\xff\xff\xff\x0e\x04\x19\x43\x19\x42\xff\xff\xff\xff\x19\x3f\xff\xff\xff\xff\xff\xff\x11\x55\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x48\xff\xff\xff\xff\x19\x4c\x19\x49\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\x19\x45\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x46\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x4b\xff\xff\xff\xff\xff\xff\x19\x40\x12\x93\x19\x47\x19\x41\xff\xff\xff\xff\x19\x4a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x50\xff\xff\x07\x48\xff\xff\x19\x4d\xff\xff\xff\xff\xff\xff\x19\x4e\xff\xff\xff\xff\x19\x4f\x19\x52\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x51\x0e\xf4\xff\xff\xff\xff\xff\xff\xff\xff\x19\x53\x11\x3a\x0f\xab\x19\x58\xff\xff\xff\xff\x19\x55\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x54\x0b\xd0\xff\xff\x19\x57\x19\x59\xff\xff\xff\xff\xff\xff\x19\x56\xff\xff\x19\x5d\xff\xff\x19\x5a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x5b\x19\x44\xff\xff\xff\xff\xff\xff\x19\x5c\x19\x5e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x5f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x84\xff\xff\x19\x60\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x60\xff\xff\xff\xff\x08\x0c\x08\x48\x19\x61\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x72\xff\xff\x0b\x88\xff\xff\x10\x2e\xff\xff\xff\xff\x19\x62\xff\xff\x10\xf1\xff\xff\xff\xff\x0e\x94\xff\xff\x0c\x25\x0e\x53\xff\xff\xff\xff\x0a\xac\xff\xff\xff\xff\xff\xff\x05\xbe\xff\xff\x19\x67\x19\x65\xff\xff\x19\x63\x07\x1f\xff\xff\x0b\x0f\x19\x68\xff\xff\xff\xff\x19\x66\xff\xff\x19\x64\x19\x6c\xff\xff\xff\xff\x19\x6b\x19\x6a\x19\x69\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x6d\xff\xff\xff\xff\xff\xff\x19\x6e\x0b\xb8\xff\xff\x19\x6f\xff\xff\x19\x71\xff\xff\xff\xff\x19\x70\xff\xff\xff\xff\xff\xff\xff\xff\x08\xd0\xff\xff\xff\xff\xff\xff\x0c\x17\xff\xff\xff\xff\xff\xff\x19\x73\xff\xff\xff\xff\xff\xff\x0d\xdc\xff\xff\x19\x72\xff\xff\xff\xff\xff\xff\x19\x74\xff\xff\x0f\x73\x0c\x4c\x09\x26\xff\xff\x19\x75\xff\xff\xff\xff\xff\xff\xff\xff\x11\x06\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x77\xff\xff\xff\xff\x19\x78\xff\xff\x19\x79\xff\xff\x19\x7a\xff\xff\x0a\x05\xff\xff\x19\x7b\x08\x6e\xff\xff\xff\xff\x07\xca\xff\xff" +
	"\x07\x89\xff\xff\x19\x80\xff\xff\x10\x71\x09\x27\x19\x7c\xff\xff\xff\xff\xff\xff\x19\x83\x10\x64\xff\xff\x0e\x5b\xff\xff\xff\xff\x0f\x12\xff\xff\xff\xff\xff\xff\x0a\xc3\x19\x82\xff\xff\x0a\x51\x09\x28\x0a\x06\x07\xc9\x0f\x74\x19\x81\xff\xff\xff\xff\xff\xff\x0c\x26\x0f\xe1\x09\xb5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x07\x0d\x5b\xff\xff\x19\x86\x11\x1d\x09\x97\xff\xff\x19\x87\x0b\x61\xff\xff\x19\x89\xff\xff\xff\xff\xff\xff\x0b\x10\x09\x6e\xff\xff\xff\xff\xff\xff\xff\xff\x19\x88\xff\xff\xff\xff\x0a\x89\x08\xbc\x0c\x27\x19\x84\x19\x8a\xff\xff\xff\xff\xff\xff\xff\xff\x19\x85\x08\x6f\xff\xff\x19\x8d\x19\x91\x08\x8b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x8c\xff\xff\xff\xff\xff\xff\xff\xff\x19\x95\xff\xff\xff\xff\x09\x29\xff\xff\xff\xff\x10\xcd\x05\xba\x19\x92\xff\xff\xff\xff\x07\xcb\xff\xff\x19\x8f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x90\xff\xff\xff\xff\x0d\xdd\x19\x8e\x19\x8b\xff\xff\x06\xc7\x0b\xe2\xff\xff\xff\xff\x08\xa6\xff\xff\xff\xff\xff\xff\x19\x97\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x94\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x96\xff\xff\xff\xff\xff\xff\x19\x93\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x70\x0c\x71\x19\x98\x0c\x4e\xff\xff\xff\xff\x19\xa5\xff\xff\xff\xff\x19\xa1\x19\x9b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x9f\x0a\x78\x05\xdb\x19\x9a\x19\xa2\x19\xa6\x09\x2a\x10\x54\xff\xff\x0d\x54\x19\x9c\xff\xff\xff\xff\x19\xa4\xff\xff\x19\x99\x0c\xdd\xff\xff\x19\x9e\x05\xbb\x10\x48\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x9d\xff\xff\xff\xff\x08\x19\x0e\xea\xff\xff\xff\xff\xff\xff\x0c\x4d\xff\xff\x11\x0e\x0a\xcf\xff\xff\xff\xff\x19\xce\xff\xff\xff\xff\x19\xa7\xff\xff\x0b\xfc\xff\xff\x19\xa3\x19\xa8\x19\xaa\xff\xff\x0d\x77\x19\xad\xff\xff\xff\xff\x19\xa9\xff\xff\xff\xff\xff\xff\x0f\x92\x07\x49\xff\xff\xff\xff\x10\x49\xff\xff\xff\xff\x05\xdc\xff\xff\xff\xff\x19\xac\xff\xff\x11\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xab\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\x06\x4f\xff\xff\xff\xff\x0e\x2a\x19\xae\xff\xff\xff\xff\xff\xff\x19\xb5\x19\xaf\x19\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xb2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x9b\xff\xff\xff\xff\x0a\x48\x19\xb4\xff\xff\x19\xb1\x19\xb7\x19\xb0\xff\xff\xff\xff\x0a\xa3\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xc4\xff\xff\xff\xff\x0a\xab\xff\xff\xff\xff\x19\xb3\x19\xc0\xff\xff\xff\xff\x19\xbb\xff\xff\x19\xbe\xff\xff\x19\xbc\x19\xc1\x19\xba\xff\xff\x19\xa0\x0b\xd1\xff\xff\xff\xff\x0e\xc9\xff\xff\x19\xbd\xff\xff\xff\xff\x19\xb8\xff\xff\xff\xff\xff\xff\x0c\x00\x08\x71\xff\xff\x0a\x8a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x44\x0c\x15\x19\xc4\xff\xff\xff\xff\x19\xc6\x19\xc7\xff\xff\xff\xff\x19\xc3\x19\xc5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xb9\x19\xc2\xff\xff\x19\xca\x19\xc9\xff\xff\xff\xff\x10\x1a\xff\xff\xff\xff\x08\x4a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xc8\xff\xff\x19\xcc\x19\xcb\x19\xcf\xff\xff\x19\xd1\xff\xff\xff\xff\x09\xdb\x19\xcd\xff\xff\xff\xff\xff\xff\xff\xff\x19\xd2\x19\xd3\xff\xff\xff\xff\x19\xd4\xff\xff\x19\xda\x0d\x9a\x19\xd6\xff\xff\x19\xd5\x19\xd7\x19\xd8\xff\xff\x19\xd9\xff\xff\xff\xff\xff\xff\xff\xff\x19\xdb\x19\xdc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x4a\xff\xff\x19\xdd\xff\xff\x19\xde\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xdf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xe0\x19\xe1\x19\xe2\xff\xff\x19\xe3\x19\xe4\xff\xff\xff\xff\x19\xe6\x19\xe5\xff\xff\xff\xff\x19\xe7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xe8\x19\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xec\x19\xea\x19\xeb\x09\x9f\x08\x72\xff\xff\xff\xff\x0c\xf5\xff\xff\x0e\xb1\xff\xff\x0a\xd0\xff\xff\xff\xff\x0e\x6c\xff\xff\x0e\xeb\x19\xed\x14\xeb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xee\x19\xf0\xff\xff\x10\xc5\x19\xef\x19\xf2\x19\xf1\xff\xff\x10\xb2\xff\xff\x19\xf3\xff\xff\x0e\xfc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xf4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\xf7\xff\xff\xff\xff\x19\xf6\x19\xf5\xff\xff\xff\xff\xff\xff\xff\xff\x19\xf8\x08\x51\xff\xff\xff\xff\xff\xff\x0c\x01\x07\xa0\xff\xff\xff\xff\xff\xff\xff\xff\x19\xfc\x19\xf9\xff\xff\xff\xff\x19\xfa\xff\xff\xff\xff\xff\xff\x19\xfd\xff\xff\x19\xfe\x19\xfb\xff\xff\xff\xff\xff\xff\x06\x08\xff\xff\xff\xff\xff\xff\x06\x65\xff\xff\xff\xff\xff\xff\x1a\x00\x1a\x01\xff\xff\xff\xff\xff\xff\x1a\x02\xff\xff\x10\xc2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x8b\xff\xff\x1a\x04\x1a\x03\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x89\x1a\x05\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x06\xff\xff\xff\xff\x1a\x07\xff\xff\x07\x63\xff\xff\xff\xff\xff\xff\xff\xff\x07\x4b\xff\xff\xff\xff\x1a\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x09\xff\xff\x0f\xfc\x10\xc3\xff\xff\xff\xff\xff\xff" +
	"\x10\xb3\x11\x56\xff\xff\x09\x2c\x1a\x0c\x0a\x52\x1a\x0b\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x0d\x0a\x27\xff\xff\xff\xff\xff\xff\x0c\x8f\xff\xff\x1a\x0e\xff\xff\xff\xff\x09\x2b\xff\xff\x10\x55\x1a\x0f\x1a\x10\xff\xff\xff\xff\x1a\x11\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x12\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x13\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x28\xff\xff\xff\xff\x10\x6b\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x15\xff\xff\x0c\xde\xff\xff\x1a\x14\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x17\xff\xff\xff\xff\xff\xff\x1a\x16\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x18\xff\xff\xff\xff\xff\xff\x0b\xb9\xff\xff\x1a\x19\xff\xff\x1a\x1a\xff\xff\xff\xff\xff\xff\x0f\x77\x1a\x1b\xff\xff\x0c\x4f\x1a\x1c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x1d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x3c\x1a\x20\xff\xff\x1a\x1f\x1a\x1e\x0d\x2e\xff\xff\x1a\x21\x0b\x45\xff\xff\x1a\x22\xff\xff\xff\xff\xff\xff\x1a\x23\x11\x57\x1a\x24\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x25\x1a\x27\x1a\x26\x0e\xa3\xff\xff\x0e\x37\xff\xff\x11\x5d\x0e\xa7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x29\xff\xff\xff\xff\x0b\x11\xff\xff\x0f\x09\xff\xff\x1a\x2a\x1a\x28\xff\xff\x07\x4c\xff\xff\xff\xff\xff\xff\x08\xd2\x0a\x08\xff\xff\xff\xff\x0e\xec\xff\xff\xff\xff\xff\xff\x08\xa8\x0f\xe2\xff\xff\x1a\x2d\x1a\x2b\xff\xff\x09\x2d\xff\xff\x09\x2e\x05\xe7\xff\xff\x09\xa6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x78\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xdd\x1a\x32\xff\xff\x0c\xdf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x77\xff\xff\x0c\x99\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x34\xff\xff\xff\xff\x1a\x30\x1a\x33\x1a\x2e\xff\xff\x1a\x31\x0f\xc5\xff\xff\xff\xff\x08\xd3\xff\xff\xff\xff\x05\xfb\x1a\x2f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x36\xff\xff\x1a\x37\xff\xff\xff\xff\x0d\xf7\xff\xff\xff\xff\xff\xff\x07\xf9\xff\xff\xff\xff\xff\xff\x1a\x45\x0e\x5c\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\x0a\x09\xff\xff\xff\xff\x07\xfa\x0b\xc6\x11\x65\x10\x2c\x1a\x35\x0b\xd2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\xb2\x1a\x38\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x3a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x39\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x3b\xff\xff\x0c\xc5\xff\xff\x0e\x5d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x2f\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x41\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x3c\xff\xff\xff\xff\x0b\x74\xff\xff\x0f\x45\x1a\x44\xff\xff\x1a\x43\x09\x2f\x11\x72\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x54\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x48\x1a\x49\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x6e\xff\xff\xff\xff\x1a\x47\xff\xff\x09\x58\x1a\x46\xff\xff\xff\xff\x1a\x4a\xff\xff\xff\xff\xff\xff\x0d\x30\x0f\x60\x0c\x02\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x9a\x1a\x4e\xff\xff\x1a\x4f\x1a\x4b\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x4c\xff\xff\x1a\x4d\xff\xff\xff\xff\xff\xff\xff\xff\x09\x30\xff\xff\xff\xff\xff\xff\x1a\x55\xff\xff\x1a\x51\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x46\xff\xff\x10\x0c\x0f\x07\xff\xff\xff\xff\x1a\x50\xff\xff\xff\xff\x1a\x53\x1a\x52\xff\xff\xff\xff\xff\xff\x0f\xe3\x1a\x56\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x57\xff\xff\xff\xff\x0c\x16\xff\xff\x1a\x58\xff\xff\xff\xff\x1a\x5a\xff\xff\x1a\x5e\xff\xff\xff\xff\x1a\x5b\x1a\x59\x0e\x5e\x1a\x5c\xff\xff\x1a\x5d\xff\xff\xff\xff\xff\xff\x06\x70\xff\xff\x1a\x64\x1a\x5f\xff\xff\xff\xff\xff\xff\x1a\x60\xff\xff\xff\xff\xff\xff\x1a\x61\xff\xff\x0c\x5f\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x63\x1a\x62\x1a\x65\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x66\x1a\x67\xff\xff\xff\xff\x0b\x62\xff\xff\x06\xa7\xff\xff\x1a\x68\x11\x15\xff\xff\x0a\x29\xff\xff\xff\xff\x0a\x8c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x0a\x0c\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x69\x1a\x6a\x06\x10\xff\xff\x1a\x6b\xff\xff" +
	"\xff\xff\x1a\x6c\x1a\x6d\xff\xff\xff\xff\x1a\x6e\xff\xff\x1a\x6f\x07\xfb\x15\x68\x1a\x70\xff\xff\x0b\xe3\x1a\x71\x0a\x49\xff\xff\x1a\x72\xff\xff\x11\xae\xff\xff\xff\xff\xff\xff\x1a\x73\x0f\x9c\x07\x5a\xff\xff\xff\xff\x0c\x03\x0a\xb7\xff\xff\x0f\x51\x0a\x8d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x74\x09\x31\x1a\x75\x0e\xca\xff\xff\x1a\x84\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x77\xff\xff\x0c\x87\x0e\x95\x08\xbd\x1a\x76\x0c\x04\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x78\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x78\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x7a\x1a\x79\x1a\x7c\xff\xff\xff\xff\x1a\x7b\xff\xff\x1a\x7d\xff\xff\xff\xff\x1a\x80\xff\xff\x1a\x7e\xff\xff\x07\x4d\xff\xff\x1a\x81\xff\xff\x1a\x82\x1a\x83\xff\xff\xff\xff\x09\x6f\x11\x07\xff\xff\x1a\x85\x0b\x46\xff\xff\xff\xff\xff\xff\x06\x50\x1a\x86\x1a\x87\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x88\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xf0\xff\xff\x1a\x89\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x8a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x47\xff\xff\xff\xff\xff\xff\x0a\x45\xff\xff\x1a\x8c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xc8\x05\xb0\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x8b\x1a\x8e\x0e\x6d\xff\xff\x0b\x63\xff\xff\x06\x94\xff\xff\x0f\xc6\xff\xff\xff\xff\xff\xff\xff\xff\x08\x7c\x08\x1a\xff\xff\x1a\x8d\xff\xff\x06\xa8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x21\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x51\x1a\x92\x11\x28\x0c\x9b\xff\xff\xff\xff\x0f\x23\xff\xff\x1a\x9e\xff\xff\x06\x95\x1a\x9c\xff\xff\x1a\x9a\x1a\x91\xff\xff\x1a\x8f\xff\xff\x1a\x90\xff\xff\x0a\x61\x08\x2a\x0d\x17\xff\xff\xff\xff\xff\xff\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x30\xff\xff\x1a\x94\x1a\x93\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x99\x1a\x95\x1a\x98\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\x10\x4e\x1a\x97\x06\x96\x07\x1d\x1a\x9b\xff\xff\xff\xff\x1a\x9d\xff\xff\xff\xff\xff\xff\xff\xff\x08\x73\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xa1\x1a\xaa\x1a\xab\xff\xff\xff\xff\xff\xff\x05\xa9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xb2\xff\xff\xff\xff\xff\xff\xff\xff\x05\xef\xff\xff\xff\xff\x1a\xa9\xff\xff\xff\xff\xff\xff\x1a\xa8\xff\xff\x1a\xa3\x1a\xa2\xff\xff\x1a\xa0\x1a\x9f\x0d\x03\xff\xff\x0c\xb9\x1a\xa5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xa4\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xa7\xff\xff\xff\xff\xff\xff\x0c\x50\x08\x74\xff\xff\xff\xff\xff\xff\xff\xff\x06\x20\x1a\xa6\xff\xff\x09\x32\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x51\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xb8\xff\xff\x1a\xb9\xff\xff\x06\x97\xff\xff\xff\xff\xff\xff\x06\x6c\x1a\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xac\xff\xff\x1a\xb4\xff\xff\x1a\xbb\x1a\xb5\xff\xff\xff\xff\xff\xff\x1a\xb3\xff\xff\xff\xff\xff\xff\xff\xff\x1a\x96\xff\xff\xff\xff\x1a\xb1\xff\xff\xff\xff\xff\xff\x1a\xad\xff\xff\xff\xff\xff\xff\x07\x4e\x1a\xaf\x1a\xba\xff\xff\x1a\xb0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xbc\xff\xff\x1a\xae\x0e\x9c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xc9\xff\xff\xff\xff\xff\xff\x1a\xb7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xcd\xff\xff\xff\xff\xff\xff\x1a\xc5\xff\xff\xff\xff\xff\xff\x0b\x9b\xff\xff\xff\xff\xff\xff\xff\xff\x07\xa5\xff\xff\x08\x1b\xff\xff\x1a\xc0\xff\xff\xff\xff\xff\xff\xff\xff\x06\x99\xff\xff\xff\xff\x0b\x12\xff\xff\x1a\xc3\xff\xff\xff\xff\xff\xff\x09\x98\xff\xff\xff\xff\x0d\xb0\x1a\xc8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xac\xff\xff\x1a\xbf\xff\xff\xff\xff\xff\xff\x06\x98\x08\xd4\x0f\x08\x1a\xc9\xff\xff\x1a\xbd\xff\xff\xff\xff\x1a\xc6\xff\xff\xff\xff\xff\xff\x1a\xd0\xff\xff\x1a\xc1\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\x1a\xc2\x0d\xf8\xff\xff\xff\xff\x1a\xc7\xff\xff\xff\xff\xff\xff\x1a\xc4\x0f\xc7\x1a\xca\x05\xde\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xbe\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xcc\xff\xff\x1a\xcb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x8b\x1a\xd2\xff\xff\x1a\xdd\xff\xff\xff\xff\xff\xff\xff\xff\x07\x1e\xff\xff\xff\xff\xff\xff\x1a\xe0\xff\xff\xff\xff\x1a\xce\xff\xff\xff\xff\xff\xff\x1a\xd3\x10\xce\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xdc\xff\xff\xff\xff\x10\xb4\xff\xff\xff\xff\xff\xff\xff\xff\x10\xe8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x18\xff\xff\xff\xff\xff\xff\x07\x0b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x52\x1a\xe2\x0d\xdf\xff\xff\xff\xff\x05\xaf\xff\xff\xff\xff\x1a\xdb\xff\xff\x1a\xd7\x0c\x52\x1a\xd1\x1a\xd9\x1a\xde\xff\xff\x0e\x4b\xff\xff\xff\xff\xff\xff\x05\xa8\xff\xff\x1a\xd6\xff\xff\x1a\xdf\x0f\x58\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xda\xff\xff\x1a\xd5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x13\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x8e\xff\xff\xff\xff\xff\xff\x0a\x2a\xff\xff\xff\xff\xff\xff\xff\xff\x10\x56\xff\xff\xff\xff\x0f\x26\xff\xff\xff\xff\x1a\xe5\xff\xff\x1a\xee\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xd8\xff\xff\xff\xff\xff\xff\xff\xff\x07\x17\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x36\x1a\xe3\xff\xff\x1a\xe8\x0c\x53\xff\xff\xff\xff\x1a\xe4\xff\xff\x1a\xeb\xff\xff\xff\xff\x0c\xfe\xff\xff\x1a\xec\xff\xff\xff\xff\x10\xb5\x1a\xe1\x06\xd7\xff\xff\x1a\xe7\xff\xff\xff\xff\x1a\xea\x10\x2a\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xed\xff\xff\xff\xff\x1a\xe6\x1a\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xc8\xff\xff\x11\x40\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xf1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xf8\xff\xff\xff\xff\x1a\xf0" +
	"\x0a\x41\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xcf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x8c\xff\xff\x10\x20\x1a\xf7\x1a\xf6\xff\xff\x1a\xf2\x1a\xf3\xff\xff\x06\x15\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xf5\xff\xff\x1a\xef\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x53\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xf4\x05\xfc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x60\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x81\xff\xff\xff\xff\x1a\xf9\x1b\x00\xff\xff\x0e\xd7\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xfc\x0b\x14\x0a\x47\x1b\x02\xff\xff\xff\xff\x07\xfc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x03\xff\xff\x0f\x59\x1a\xfb\xff\xff\x1a\xd4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1a\xfa\xff\xff\xff\xff\xff\xff\xff\xff\x11\x6e\x0d\xe0\x0f\x53\xff\xff\xff\xff\x1b\x0a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x11\xff\xff\x1b\x04\xff\xff\xff\xff\xff\xff\x0e\x96\xff\xff\xff\xff\x1b\x0e\x1b\x06\xff\xff\x1b\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x12\x1b\x07\xff\xff\xff\xff\x1b\x0b\xff\xff\xff\xff\x06\x52\xff\xff\x0e\x23\xff\xff\x1b\x0c\x1b\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x05\xff\xff\x0c\x05\xff\xff\x1b\x09\x09\xc6\x0b\x64\x08\x4f\x10\x72\xff\xff\x10\x77\x0a\xd2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x16\x1b\x14\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x6d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x13\xff\xff\xff\xff\xff\xff\x10\xd5\xff\xff\x1b\x15\x1b\x17\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x18\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x1b\x1b\x19\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xe1\x1b\x1a\xff\xff\xff\xff\xff\xff\x0e\xcb\x1b\x0d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xd3\xff\xff\x1b\x1c\x1b\x21\x0c\x54\xff\xff\xff\xff\x1b\x20\xff\xff" +
	"\xff\xff\xff\xff\x1b\x01\xff\xff\xff\xff\xff\xff\x1b\x22\x0c\x28\xff\xff\xff\xff\x1b\x1d\x1b\x1f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x1e\xff\xff\xff\xff\x16\x90\x16\x81\xff\xff\xff\xff\x1b\x24\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x23\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xd6\xff\xff\x18\x7a\x1b\x25\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x26\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x27\x08\xd5\xff\xff\x07\xb3\xff\xff\xff\xff\xff\xff\x1b\x29\x12\x3c\xff\xff\xff\xff\xff\xff\xff\xff\x07\xd5\xff\xff\x10\xf8\xff\xff\x08\x31\x1b\x2a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x2b\xff\xff\xff\xff\xff\xff\x0d\x0e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x2c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x38\xff\xff\x05\xb8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xa1\x1b\x31\x1b\x32\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x2d\xff\xff\x09\xdc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x2e\x0e\x61\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x2f\x1b\x30\x1b\x3a\xff\xff\xff\xff\xff\xff\x1b\x34\x1b\x37\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x33\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x35\xff\xff\x1b\x36\x0a\x56\xff\xff\x1b\x38\xff\xff\x0c\xe0\xff\xff\x08\x75\x06\xe1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x3b\xff\xff\xff\xff\xff\xff\xff\xff\x06\xde\xff\xff\x1b\x41\xff\xff\xff\xff\x1b\x3c\x1b\x40\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xb8\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x3d\xff\xff\xff\xff\x1b\x3e\x0f\x27\x0e\xd8\x1b\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xbb\x1b\x4c\xff\xff\x1b\x48\xff\xff\xff\xff\x06\xa9\xff\xff" +
	"\x1b\x46\xff\xff\x0f\xc9\x1b\x47\xff\xff\xff\xff\x1b\x44\xff\xff\x1b\x45\x1b\x4a\x1b\x4d\xff\xff\xff\xff\x1b\x4b\xff\xff\xff\xff\xff\xff\x1b\x49\x1b\x43\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xf7\xff\xff\x1b\x54\xff\xff\x10\x28\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x52\xff\xff\xff\xff\xff\xff\x1b\x53\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x4e\xff\xff\xff\xff\x1b\x50\xff\xff\xff\xff\xff\xff\x1b\x51\xff\xff\xff\xff\xff\xff\x1b\x4f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xe4\xff\xff\x11\x58\x1b\x58\xff\xff\x1b\x59\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x5f\xff\xff\x0b\x49\xff\xff\x1b\x5b\xff\xff\x1b\x5e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x56\x1b\x55\xff\xff\xff\xff\x1b\x60\xff\xff\xff\xff\x06\x9a\xff\xff\x1b\x5c\xff\xff\x1b\x61\xff\xff\xff\xff\xff\xff\x1b\x5d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x5a\xff\xff\x0d\x31\xff\xff\x1b\x57\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x88\xff\xff\xff\xff\x1b\x65\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x9a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x64\xff\xff\xff\xff\x1b\x63\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x6c\xff\xff\xff\xff\xff\xff\x1b\x66\xff\xff\xff\xff\xff\xff\x1b\x6e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xc6\x1b\x71\xff\xff\x1b\x68\xff\xff\xff\xff\x1b\x69\xff\xff\xff\xff\xff\xff\x1b\x6d\xff\xff\x1b\x70\x1b\x6f\xff\xff\xff\xff\xff\xff\x1b\x67\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x6a\xff\xff\x1b\x7b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x74\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x72\xff\xff\xff\xff\x1b\x73\xff\xff\xff\xff\xff\xff\x1b\x78\x1b\x79\xff\xff\x06\xc9\xff\xff\x07\xa1\xff\xff\xff\xff\x1b\x77\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x62\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x76\x1b\x7a\x1b\x75\xff\xff\x1b\x7c\xff\xff\xff\xff\xff\xff\x1b\x7e\x1b\x7d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x80\x1b\x7f\x1b\x39\xff\xff\xff\xff\xff\xff\x1b\x84\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x81\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x82\xff\xff\xff\xff\x1b\x83\xff\xff\x1b\x85\xff\xff\xff\xff\xff\xff\xff\xff\x08\x8c\xff\xff\x1b\x87\xff\xff\x1b\x86\xff\xff\x0a\x8f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x33\x16\xe5\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x88\x0a\xb0\xff\xff\xff\xff\xff\xff\x06\xd8\xff\xff\x1b\x89\xff\xff\x06\x31\xff\xff\x0b\x15\x1b\x8a\xff\xff\xff\xff\x09\x34\x1b\x8b\x05\xdf\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x1c\xff\xff\xff\xff\x1b\x8c\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x8a\xff\xff\x1b\x93\xff\xff\xff\xff\x1b\x90\xff\xff\x0d\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x91\x1b\x8e\x08\x1c\xff\xff\x1b\x8d\x1b\x94\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x55\xff\xff\xff\xff\x0c\x9c\xff\xff\x1b\x9a\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x96\xff\xff\xff\xff\xff\xff\x0c\x73\x1b\x95\xff\xff\x1b\x98\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x8f\xff\xff\xff\xff\xff\xff\x1b\x99\xff\xff\x1b\x9b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xed\xff\xff\xff\xff\x1b\x97\xff\xff\x1b\x9c\x1b\x9e\xff\xff\xff\xff\x08\xd1\x1b\x92\xff\xff\x05\xbf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\x9d\xff\xff\x09\x99\x11\x34\x1b\x9f\x1b\xa0\x0c\x55\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xe0\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xa1\x10\x94\xff\xff\xff\xff\x1b\xa2\x1b\xa3\xff\xff\xff\xff\x0f\xa2\x1b\xa4\xff\xff\x09\x7e\xff\xff\x10\xe1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xa9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xaa\x0b\x16\x1b\xa8\xff\xff\xff\xff\xff\xff\x10\xc7\x1b\xa5\xff\xff\xff\xff\x1b\xa7\x0b\xbb\x0b\x9e\xff\xff" +
	"\xff\xff\xff\xff\x1b\xa6\xff\xff\x1b\xab\xff\xff\xff\xff\x0f\x61\xff\xff\xff\xff\x1b\xad\xff\xff\x1b\xac\xff\xff\xff\xff\xff\xff\x07\x0c\xff\xff\x0f\xca\x1b\xae\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xba\x1b\xb0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xb1\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xb2\x1b\xb3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xb7\xff\xff\x1b\xb8\xff\xff\xff\xff\x1b\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xb4\xff\xff\x1b\xaf\x1b\xb5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xb9\x1d\xb5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x66\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xbc\x08\x1d\x1b\xbb\xff\xff\xff\xff\xff\xff\x1b\xc1\xff\xff\x1b\xc0\xff\xff\xff\xff\xff\xff\x1b\xc3\xff\xff\xff\xff\x1b\xc2\xff\xff\x1b\xc4\xff\xff\xff\xff\x0a\x90\xff\xff\x1b\xc5\xff\xff\xff\xff\x1b\xc6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xc7\x0b\xbc\xff\xff\x10\xb6\xff\xff\x1b\xc8\xff\xff\xff\xff\x0f\x62\x0e\x65\x1b\xc9\xff\xff\x1b\xca\x08\xa9\xff\xff\xff\xff\xff\xff\x07\x8b\xff\xff\xff\xff\xff\xff\x1b\xcb\xff\xff\xff\xff\x0a\x0b\x0e\x60\x1b\xcc\xff\xff\x06\xef\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xcd\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xcf\x10\xd7\xff\xff\x1b\xce\x0b\x65\xff\xff\x1b\xd0\xff\xff\xff\xff\x1b\xd1\xff\xff\xff\xff\x1b\xd2\x07\x4f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xd3\xff\xff\xff\xff\x1b\xd4\xff\xff\x1b\xd5\x1b\xd6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xf0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xd7\xff\xff\x1b\xd8\x1b\xd9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xb0\xff\xff\xff\xff\x0b\x47\x1b\xda\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xdb\xff\xff\xff\xff\xff\xff\x1b\xdc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\x08\xbe\xff\xff\x0d\x79\x1b\xdd\xff\xff\xff\xff\xff\xff\xff\xff\x08\x76\xff\xff\x0b\x75\xff\xff\x1b\xe0\xff\xff\x0d\xe2\xff\xff\x1b\xdf\xff\xff\xff\xff\x08\x50\xff\xff\xff\xff\x1b\xde\x0c\xb5\x07\x8c\xff\xff\xff\xff\x1b\xe1\xff\xff\x1b\xe2\xff\xff\x0b\x17\xff\xff\xff\xff\xff\xff\x08\x8d\xff\xff\x1b\xe3\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xcb\xff\xff\xff\xff\x0b\xdd\xff\xff\xff\xff\xff\xff\x07\xd6\xff\xff\x10\x73\x0c\x29\xff\xff\x1b\xe4\xff\xff\xff\xff\xff\xff\x0b\x66\x0d\x10\x0b\x18\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xe5\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xe8\xff\xff\x1b\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x7c\x0c\x80\x1b\xe7\xff\xff\x0b\x19\x0f\x1d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xe6\xff\xff\xff\xff\x0a\x0c\xff\xff\x06\x32\xff\xff\x1b\xed\x08\x77\xff\xff\xff\xff\x0a\x0e\xff\xff\xff\xff\x0a\x0d\xff\xff\x11\x6c\x1b\xec\x1b\xeb\x0c\x06\xff\xff\x07\xac\x11\x62\x06\xd9\x0b\x1a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xea\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1b\xef\xff\xff\x1b\xf0\x1b\xee\xff\xff\x08\xd6\xff\xff\x10\x9f\xff\xff\xff\xff\x0a\x0f\x0e\x46\xff\xff\xff\xff\xff\xff\x1b\xf3\xff\xff\x0b\xbe\xff\xff\x0c\xe1\xff\xff\xff\xff\x10\x95\xff\xff\x1b\xf6\xff\xff\xff\xff\xff\xff\x08\xea\xff\xff\x0b\xbd\x1b\xf2\xff\xff\x1b\xf7\x08\xeb\x1b\xf4\x1b\xf5\xff\xff\x1b\xf1\xff\xff\xff\xff\xff\xff\x0b\xe0\x0e\x07\xff\xff\xff\xff\x0c\xce\xff\xff\x06\x9b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xee\xff\xff\xff\xff\x07\xa2\xff\xff\xff\xff\x0d\x32\xff\xff\xff\xff\x1b\xfa\xff\xff\x1b\xf8\xff\xff\xff\xff\x0c\xeb\xff\xff\xff\xff\xff\xff\x0b\xbf\x07\x50\x1b\xf9\xff\xff\x0b\x7a\xff\xff\xff\xff\x11\x08\xff\xff\xff\xff\xff\xff\x11\x5f\xff\xff\xff\xff\xff\xff\x1b\xfb\x1c\x07\x0d\x33\xff\xff\x1c\x06\xff\xff\x1c\x03\x1c\x0b\x1c\x04\xff\xff\x1c\x00\xff\xff\x0d\x7a\x1b\xfe\xff\xff\xff\xff\xff\xff\x1b\xfc\xff\xff\x10\x80\x0a\x10\xff\xff\xff\xff\x1c\x01\xff\xff\x1b\xfd\xff\xff\xff\xff\xff\xff\x1c\x05\x0a\xd4\xff\xff\x08\xbf\xff\xff\xff\xff\xff\xff\x0c\xb8\xff\xff" +
	"\x0f\xe4\x06\x39\x05\xe0\xff\xff\x0d\xe3\xff\xff\xff\xff\x1c\x09\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x08\xff\xff\x0e\x24\xff\xff\x1c\x0d\xff\xff\xff\xff\xff\xff\x1c\x02\xff\xff\x1c\x0c\x1c\x0e\xff\xff\x08\xaa\x1c\x0a\x09\x35\xff\xff\x0a\x53\xff\xff\xff\xff\x1c\x0f\x10\xb7\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x12\xff\xff\x1c\x15\xff\xff\xff\xff\x1c\x13\x0f\x14\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x1e\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x14\xff\xff\xff\xff\x1c\x16\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x1a\xff\xff\xff\xff\x1c\x17\xff\xff\x1c\x19\x1c\x18\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x1b\xff\xff\x0a\x2f\xff\xff\x1c\x1d\x1c\x1c\x0f\x48\xff\xff\xff\xff\x1c\x1f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x78\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x1e\x1c\x20\xff\xff\xff\xff\x1c\x21\x07\xa3\x19\xff\x0b\x37\xff\xff\x1c\x22\xff\xff\xff\xff\x08\xec\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x23\xff\xff\xff\xff\x1c\x24\xff\xff\xff\xff\x09\xdd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\x8c\xff\xff\x1c\x25\xff\xff\x1c\x26\xff\xff\x0a\x91\xff\xff\x1c\x27\x1c\x28\xff\xff\xff\xff\x1c\x29\xff\xff\xff\xff\x1c\x2a\x1c\x2b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xca\xff\xff\xff\xff\x1c\x2c\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x2e\xff\xff\x1c\x2d\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xe4\xff\xff\x1c\x2f\xff\xff\x0f\xcc\xff\xff\x1c\x30\xff\xff\x1c\x31\xff\xff\x1c\x32\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x33\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x18\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x1b\x1c\x34\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x4b\x11\xac\x1c\x35\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x36\x0f\x1e\x1c\x37\xff\xff\x1c\x3f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x38\xff\xff\xff\xff\x1c\x3a\xff\xff\xff\xff\xff\xff\x1c\x39\x1c\x3b\xff\xff\x0f\xe5\x1c\x3c\x1c\x3d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x3e\xff\xff\xff\xff\xff\xff\x1c\x40\xff\xff\xff\xff\xff\xff\xff\xff\x06\xcc\x0d\x65\xff\xff\x0f\x49\x09\xa0\x09\x36\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x2e\x06\x9d\x0e\xcc\x1c\x43\x07\x51\x0b\xd3\x1c\x42\x1c\x47\x0d\x19\x10\x61\xff\xff\x1c\x45\x1c\x46\x07\x8d\xff\xff\x1c\x48\x0e\x83\x0c\x9d\xff\xff\xff\xff\x0e\xef\x0d\x9c\x1c\x44\xff\xff\x0f\xe6\x06\xaa\x1c\x4a\x11\x47\x0d\x40\x11\x64\xff\xff\xff\xff\x0a\x11\x1c\x49\xff\xff\x0c\x6f\xff\xff\xff\xff\x1c\x5a\x0c\x07\xff\xff\xff\xff\x0e\x36\xff\xff\x0f\x2f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x4d\x09\xde\x0a\x12\xff\xff\x0b\x1c\xff\xff\x0e\x85\xff\xff\x08\xab\x1c\x4c\x1c\x4b\xff\xff\x0f\x4a\xff\xff\xff\xff\xff\xff\x0a\x3f\xff\xff\xff\xff\x0d\xb1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x4f\x1c\x50\x09\x37\x1c\x4e\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x51\x1c\x52\xff\xff\x1c\x54\x0c\x61\xff\xff\x1c\x53\x07\x64\xff\xff\x1c\x56\xff\xff\x1c\x55\x1c\x57\xff\xff\xff\xff\x1c\x59\x1c\x5b\xff\xff\x1c\x5c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xd4\xff\xff\x0a\x4d\x1c\x5d\xff\xff\xff\xff\xff\xff\x06\xf1\xff\xff\x1c\x5e\xff\xff\xff\xff\x0c\x56\x1c\x5f\xff\xff\x1c\x60\x0f\x4b\xff\xff\xff\xff\x07\x8e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x61\xff\xff\xff\xff\xff\xff\x0d\x34\xff\xff\xff\xff\xff\xff\xff\xff\x06\x3a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x62\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x6f\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x96\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x6b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x65\xff\xff\xff\xff\xff\xff\x1c\x64\xff\xff\xff\xff\xff\xff\x1c\x63\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x6b\x1c\x69\xff\xff\xff\xff\x1c\x66\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x68\xff\xff\xff\xff\xff\xff\x1c\x67\x1c\x6a\xff\xff\x07\xd7\xff\xff\x1c\x6e\xff\xff\x0b\xd5\xff\xff\x1c\x6f\xff\xff\xff\xff\xff\xff\xff\xff\x08\xd7\xff\xff\x1c\x6c\x1c\x6d\xff\xff\xff\xff\xff\xff\x11\x48\xff\xff\xff\xff\xff\xff\x0d\x35\xff\xff\x0c\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x70\xff\xff\xff\xff\x1c\x73" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x71\x1c\x72\x10\xb8\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xe5\x1c\x76\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x74\x1c\x75\x1c\x77\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x88\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x7a\xff\xff\xff\xff\xff\xff\x1c\x7b\x1c\x79\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x78\xff\xff\x0d\x7b\xff\xff\xff\xff\x1c\x80\x1c\x84\x1c\x81\x1c\x7c\xff\xff\x1c\x82\xff\xff\xff\xff\xff\xff\x1c\x83\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x8a\xff\xff\xff\xff\xff\xff\x1c\x85\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xd6\x1c\x87\xff\xff\xff\xff\x1c\x89\x1c\x86\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x8c\xff\xff\x0a\x92\xff\xff\x1c\x8b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x8d\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x8e\xff\xff\xff\xff\x1c\x91\x1c\x90\xff\xff\x1c\x8f\xff\xff\xff\xff\x1c\x93\x1c\x92\xff\xff\x10\x74\xff\xff\xff\xff\xff\xff\x1c\x95\xff\xff\x1c\x94\x1c\x96\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x97\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x99\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x98\x0b\x67\x1c\x9a\xff\xff\xff\xff\x08\x2b\x1c\x9b\x1c\x9d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x9e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\x9f\x1c\x9c\xff\xff\x1c\xa0\xff\xff\x0a\x54\x1c\xa1\x07\x8f\x08\x52\xff\xff\xff\xff\xff\xff\xff\xff\x08\xac\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xa2\xff\xff\xff\xff\xff\xff\x0e\x2e\xff\xff\xff\xff\x0d\x9d\x1c\xa3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xa6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x32\xff\xff\xff\xff\x1c\xa5\x1c\xa4\x08\x79\x1c\xa7\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\x06\xf2\xff\xff\x1c\xa9\xff\xff\xff\xff\xff\xff\x09\x9a\x1c\xa8\xff\xff\x1c\xb1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xab\x1c\xad\x0f\xa3\x1c\xaa\xff\xff\xff\xff\xff\xff\x1c\xac\xff\xff\x1c\xb0\x1c\xae\x07\x90\xff\xff\x1c\xaf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xb2\xff\xff\xff\xff\x0e\x79\x11\x16\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x93\xff\xff\xff\xff\xff\xff\x1c\xb3\xff\xff\xff\xff\xff\xff\xff\xff\x10\x81\x1c\xb5\xff\xff\x1c\xb4\xff\xff\xff\xff\x1c\xb8\x10\xa0\xff\xff\xff\xff\x1c\xb7\xff\xff\x07\x0d\x1c\xb6\x1c\xbb\xff\xff\xff\xff\x1c\xba\xff\xff\xff\xff\x1c\xb9\x0d\x91\x1c\xbc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xbd\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xbe\xff\xff\xff\xff\x09\x4c\xff\xff\x08\x44\x1c\xc0\x1c\xc1\x1c\xc2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x68\x1c\xc3\xff\xff\x0a\x2b\x1c\xc4\xff\xff\xff\xff\xff\xff\x1c\xc5\xff\xff\xff\xff\xff\xff\x12\x5f\x12\x5e\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xc6\x19\xd0\x1c\xc7\x0c\xc3\x0b\x4a\x0e\x5f\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xc8\xff\xff\xff\xff\x0f\x93\x0d\x52\x09\x5e\xff\xff\xff\xff\x0c\xc8\xff\xff\xff\xff\x06\x09\xff\xff\x10\x18\x0b\x76\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x7d\xff\xff\xff\xff\x08\x1f\xff\xff\xff\xff\x0f\x94\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xc9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xcb\xff\xff\xff\xff\x1c\xca\x06\x9e\xff\xff\xff\xff\x0e\x34\x1c\xcc\x0e\x97\xff\xff\x0d\x92\xff\xff\x1c\xcd\x0a\xb1\xff\xff\xff\xff\xff\xff\x1c\xcf\xff\xff\xff\xff\x10\x40\x1c\xde\x1c\xd1\x1c\xd2\xff\xff\xff\xff\x0d\x47\xff\xff\xff\xff" +
	"\x0c\x9e\x0c\x57\xff\xff\x0d\xe6\xff\xff\x1c\xd0\x07\xb4\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xd9\xff\xff\x1c\xd6\x1c\xe3\x0d\xe7\x0d\x00\x1c\xd3\xff\xff\x0d\x7c\x0d\xb2\x1c\xd4\x1c\xd8\x0b\x80\xff\xff\x0e\x87\x0d\x4a\xff\xff\xff\xff\x0b\xc0\x1c\xd7\x0c\x6c\x0c\x62\x1c\xd5\x05\xa7\x11\x41\xff\xff\xff\xff\xff\xff\x1c\xda\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x9f\xff\xff\xff\xff\x0a\x94\x0b\x69\xff\xff\xff\xff\x1c\xdc\x1c\xdb\xff\xff\x05\xed\x1c\xdd\xff\xff\xff\xff\x0f\x0e\xff\xff\x1c\xe5\xff\xff\xff\xff\x0e\x19\x0b\x8b\xff\xff\xff\xff\x0c\xf8\xff\xff\x08\x36\xff\xff\x1c\xe4\x10\x96\x06\x1e\xff\xff\x0f\x95\x06\x9f\x1c\xdf\x1c\xe0\x1c\xe1\x1c\xe2\x0d\xf9\x0c\xc2\x05\xe1\x1c\xe6\xff\xff\x1c\xe7\x1f\x21\xff\xff\xff\xff\x0c\x7b\xff\xff\x1c\xe8\xff\xff\x06\x53\x0c\x2b\xff\xff\x08\xad\xff\xff\x10\xb9\xff\xff\xff\xff\x1c\xe9\x0d\x8b\xff\xff\xff\xff\xff\xff\x0c\x58\x0a\x55\x1c\xea\xff\xff\xff\xff\x1c\xed\xff\xff\xff\xff\x0a\xc5\x1c\xeb\x0c\x0a\x0c\x09\xff\xff\x05\xe2\xff\xff\x11\x09\x1c\xef\xff\xff\x0e\xf0\x1c\xf1\x1c\xf0\x1c\xee\x19\x04\x07\x52\xff\xff\xff\xff\x1c\xce\xff\xff\x1c\xf3\x1c\xf2\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xf4\xff\xff\x10\x97\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x1f\xff\xff\xff\xff\x0f\xcd\xff\xff\x1c\xf5\xff\xff\x0a\x57\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xf6\xff\xff\x1c\xf7\xff\xff\xff\xff\xff\xff\x1c\xf8\xff\xff\xff\xff\x0d\x80\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xe8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x38\xff\xff\xff\xff\xff\xff\x11\x59\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xfc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x53\x1c\xf9\xff\xff\x1c\xfa\xff\xff\xff\xff\xff\xff\x0f\x54\xff\xff\xff\xff\xff\xff\xff\xff\x06\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x98\xff\xff\x07\xfd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xb3\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\x1c\xfd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xfe\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x81\xff\xff\xff\xff\x1d\x01\xff\xff\x1d\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x11\x1d\x02\x0a\x95\x0a\x5e\x0e\x7a\x0d\x11\xff\xff\xff\xff\xff\xff\x0a\x70\xff\xff\x0b\x8c\xff\xff\x1d\x03\xff\xff\x1d\x04\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x7c\x1d\x05\xff\xff\x1d\x06\xff\xff\xff\xff\xff\xff\x1d\x07\x10\xcf\xff\xff\x0a\x96\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x09\x1d\x08\xff\xff\x09\x39\xff\xff\x09\x53\x09\xdf\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x0c\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xc6\xff\xff\x1d\x0b\xff\xff\x1d\x0a\xff\xff\x0c\xa7\xff\xff\xff\xff\x08\xed\xff\xff\x0b\xc1\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xae\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x98\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x0d\xff\xff\x0b\x1d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x10\x1d\x0e\xff\xff\xff\xff\xff\xff\x1d\x0f\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x12\x1d\x11\xff\xff\xff\xff\x0b\x38\xff\xff\x1d\x13\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x14\x1d\x15\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xce\x09\x91\x0a\x5f\x1d\x16\xff\xff\x1d\x17\x10\xe2\x0a\xa4\x10\x6c\x11\x0a\x1d\x18\x08\x20\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x19\xff\xff\x0d\x82\xff\xff\xff\xff\x1d\x1c\x07\x18\x0b\x6a\xff\xff\x1d\x1a\xff\xff\x1d\x1b\xff\xff\x0d\x5e\xff\xff\xff\xff\x0f\xf4\x08\x3a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x1e\x1d\x1f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x1d\xff\xff\xff\xff\x1d\x21" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x1d\x06\xe2\xff\xff\xff\xff\x1d\x25\xff\xff\xff\xff\x1d\x22\x1d\x24\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x20\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x6e\xff\xff\xff\xff\x1d\x23\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x29\xff\xff\xff\xff\x08\xd8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x2d\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x93\x1d\x28\xff\xff\xff\xff\x1d\x2b\x1d\x29\xff\xff\x1d\x2e\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x2f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x27\xff\xff\xff\xff\x1d\x34\x06\x54\xff\xff\xff\xff\x1d\x26\xff\xff\xff\xff\xff\xff\x0e\xab\xff\xff\x1d\x2a\xff\xff\x0b\x1e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x3a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xe7\xff\xff\x08\x22\xff\xff\xff\xff\x0a\xa5\xff\xff\x0d\xfa\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x0c\xff\xff\x1d\x32\xff\xff\x1d\x2c\x1d\x31\xff\xff\x10\x41\xff\xff\x0d\x36\x1d\x33\x1d\x30\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x0b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x37\xff\xff\x1d\x36\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x35\xff\xff\xff\xff\x0f\xce\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\xdb\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x38\x0f\x9d\xff\xff\xff\xff\x06\x33\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x25\x0d\x12\xff\xff\xff\xff\xff\xff\xff\xff\x07\xd8\xff\xff\x1d\x3a\xff\xff\x09\x3c\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\xcb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x39\x0b\x8d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x8e\x1d\x40\x1d\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x39\xff\xff\x1d\x41\x1d\x43\xff\xff\xff\xff\x08\x11\xff\xff\x0f\x24\xff\xff\xff\xff\x0a\x60\x11\x42\xff\xff\x1d\x3c\x09\xb6\xff\xff\xff\xff\x11\x5e\xff\xff\xff\xff\x1d\x45\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x44\x1d\x46\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x27\xff\xff\x0d\xb4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x55\xff\xff\x1d\x4b\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xe2\x1d\x47\xff\xff\xff\xff\xff\xff\x1d\x48\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x4c\xff\xff\x1d\x4a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xae\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x49\xff\xff\x0b\x1f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x19\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x4f\xff\xff\x09\x7d\x0c\x59\xff\xff\xff\xff\x0d\x48\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xda\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x4d\x1d\x4e\x0d\x41\xff\xff\x1d\x4c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x50\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x56\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x59\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x58\x0d\x8c\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x51\x1d\x52\x1d\x55\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x57\xff\xff\xff\xff\xff\xff\x07\xfe\xff\xff\xff\xff\x1d\x5a\x1d\x54\xff\xff\xff\xff\x1d\x53\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\x1d\x5e\xff\xff\xff\xff\xff\xff\x1d\x5f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x60\xff\xff\xff\xff\x1d\x5d\x1d\x5c\xff\xff\xff\xff\xff\xff\x0b\x20\x0d\xe8\x1d\x5b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x64\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x62\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x63\x1d\x61\xff\xff\x0c\xb6\xff\xff\x1d\x65\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x66\xff\xff\xff\xff\x1d\x68\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x53\x1d\x67\x10\x78\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x73\x1d\x69\xff\xff\xff\xff\x1d\x6c\xff\xff\x1d\x6a\xff\xff\x1d\x6b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x6d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x6f\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x70\xff\xff\x1d\x71\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x74\x1d\x72\x1d\x75\x1d\x77\xff\xff\x1d\x76\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x37\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x65\xff\xff\x1d\x78\x0c\x0d\xff\xff\xff\xff\xff\xff\x1d\x79\xff\xff\x0f\x82\x1d\x7a\x06\xca\xff\xff\xff\xff\xff\xff\x06\x1b\xff\xff\x07\x55\xff\xff\x07\x54\x1d\x7b\xff\xff\x1d\x7c\xff\xff\x1d\x7d\x1d\x7e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x80\xff\xff\x07\x56\x06\xf4\x09\x3d\x0e\xb4\xff\xff\x1d\x82\x1d\x81\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x83\xff\xff\xff\xff\xff\xff\xff\xff\x06\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x86\xff\xff\x1d\x85\x1d\x84\xff\xff\x1d\x87\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x8a\xff\xff\xff\xff\xff\xff\x05\xc5\xff\xff\xff\xff\x1d\x88\xff\xff\x1d\x8c\x1d\x8b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x8e\x1d\x8d\x1d\x8f\xff\xff\x0d\xec\xff\xff\xff\xff\xff\xff\x1d\x90\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x91\x1d\x93\xff\xff\xff\xff\x1d\x92\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x4c\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x94\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x95\xff\xff\x09\xa3\xff\xff\xff\xff\xff\xff\x1d\x96\x1d\x97\xff\xff\xff\xff\x0f\xe8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x2a\xff\xff\xff\xff\xff\xff\x05\xa2\x0c\x89\xff\xff\x1d\x98\xff\xff\x0f\x4d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\x9b\x1d\x99\x09\x3e\xff\xff\x1d\x9a\x08\xc0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x83\x1d\x9d\x1d\x9f\x1d\x9e\x1d\xa0\xff\xff\xff\xff\x06\x00\x0b\x77\x0a\xdc\x07\x57\x1d\xa1\xff\xff\xff\xff\xff\xff\x0e\x86\xff\xff\x1d\xa3\xff\xff\xff\xff\xff\xff\x06\x01\xff\xff\x1d\xa2\x0d\x42\xff\xff\x11\x0b\x0d\xe9\x1d\x9c\x10\xe4\xff\xff\x08\xaf\xff\xff\xff\xff\x10\xba\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x37\x10\xf2\xff\xff\x08\x47\xff\xff\x0c\xa0\x1a\x40\xff\xff\x1d\xa4\x06\xcb\x0b\x8f\xff\xff\xff\xff\xff\xff\xff\xff\x06\xf5\x1d\xa6\xff\xff\x1d\xa7\x1d\xa5\x08\x84\xff\xff\x09\x9b\x0b\x21\xff\xff\xff\xff\xff\xff\x06\x02\xff\xff\xff\xff\x11\x17\xff\xff\xff\xff\xff\xff\x1d\xa9\x1c\xec\xff\xff\x1d\xa8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xac\x1d\xaa\x1d\xab\xff\xff\x1d\xad\xff\xff\x1d\xae\x11\x2a\x1d\xaf\x1d\xb0\xff\xff\x0b\xc7\x0e\xb9\xff\xff\xff\xff\xff\xff\x0b\x9d\x07\x65\xff\xff\xff\xff\x10\x99\x06\xab\x0a\x97\x08\xd9\xff\xff\x1d\xb3\xff\xff\x1d\xb2\x0a\x13\x1d\xb4\x1d\xb1\xff\xff\xff\xff\x09\xc7\xff\xff\xff\xff\xff\xff\x1d\xb8\x1b\x6b\xff\xff\xff\xff\x12\x94\xff\xff\x0b\x97\x1d\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xe3\x0e\x2f\xff\xff\xff\xff\xff\xff\xff\xff\x06\x0a\xff\xff\x0b\xe1\x0a\x34\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x75\xff\xff\x06\x1f\xff\xff\xff\xff\xff\xff\x11\x2b\x10\xcb\xff\xff\x1d\xb9\xff\xff\x0d\xa4\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\x0a\x79\xff\xff\xff\xff\xff\xff\x1d\xba\xff\xff\x1d\xbb\x0b\x6b\x1d\xbc\xff\xff\x11\x2c\xff\xff\xff\xff\x1d\xb7\x1d\xbe\x1d\xc0\xff\xff\x1d\xbf\xff\xff\x1d\xbd\xff\xff\xff\xff\x1d\xc1\xff\xff\xff\xff\x1d\xc2\xff\xff\xff\xff\x0c\x5a\xff\xff\x06\xa0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xc3\xff\xff\xff\xff\x10\x36\xff\xff\xff\xff\x1d\xc4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xc5\xff\xff\x11\x49\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x15\xd0\x1d\xc6\xff\xff\xff\xff\xff\xff\x1d\xc7\x1d\xc8\xff\xff\xff\xff\xff\xff\x1d\xcc\xff\xff\x1d\xc9\xff\xff\x1d\xca\xff\xff\x1d\xcb\x1d\xcd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\xc2\xff\xff\xff\xff\xff\xff\x10\x75\xff\xff\xff\xff\x0b\xc3\xff\xff\xff\xff\x1d\xce\xff\xff\x0e\xf1\xff\xff\x1d\xcf\x1e\xf2\x10\x4a\xff\xff\x1d\xd0\xff\xff\x1d\xd1\xff\xff\x1d\xd2\x06\xf6\xff\xff\x1d\xd4\xff\xff\x0b\x78\xff\xff\xff\xff\xff\xff\x1d\xd5\xff\xff\xff\xff\x08\x43\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xd6\x1d\xda\xff\xff\x1d\xd8\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xd9\xff\xff\xff\xff\x07\x13\x1d\xd7\x1d\xdb\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xdc\xff\xff\x05\xc6\xff\xff\x1d\xdd\x1d\xde\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0b\x22\xff\xff\xff\xff\xff\xff\x1d\xdf\xff\xff\xff\xff\xff\xff\x07\xa6\xff\xff\xff\xff\x1d\xe2\xff\xff\xff\xff\x1d\xe1\xff\xff\x1d\xe0\xff\xff\xff\xff\x1c\x11\xff\xff\x0f\x9a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xe3\x1d\xe4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xe5\xff\xff\xff\xff\x1d\xe6\xff\xff\x1d\xe7\xff\xff\xff\xff\x1d\xe8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x58\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xe9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xea\x0e\x42\xff\xff\xff\xff\xff\xff\x1d\xec\x06\x79\xff\xff\x1d\xef\x1d\xee\xff\xff\xff\xff\xff\xff\xff\xff\x06\x03\xff\xff\xff\xff\xff\xff\x07\xff" +
	"\xff\xff\x0f\x85\x0d\x38\x09\x60\xff\xff\x09\x40\x0a\xc7\xff\xff\x0b\x7b\xff\xff\xff\xff\xff\xff\x1d\xf1\xff\xff\xff\xff\x1d\xf0\x10\xa1\x07\x66\x0e\xd0\x0e\x1a\xff\xff\xff\xff\xff\xff\x0b\x9c\x11\x0c\xff\xff\x08\x7a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xf4\xff\xff\xff\xff\x1d\xf3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xea\x0d\xea\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x2f\xff\xff\xff\xff\x1d\xf5\x1d\xf2\xff\xff\xff\xff\x0f\x30\x10\xca\x1d\xf6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xf7\xff\xff\xff\xff\xff\xff\xff\xff\x1d\xf9\x0c\xa8\x06\xfa\x06\xfb\x1d\xf8\xff\xff\xff\xff\xff\xff\xff\xff\x07\x67\x08\xb0\xff\xff\xff\xff\x07\x68\xff\xff\xff\xff\x0d\x9e\xff\xff\xff\xff\x11\x1e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\xda\xff\xff\xff\xff\xff\xff\x1d\xfa\xff\xff\xff\xff\xff\xff\x1d\xfb\x1d\xfc\x1e\x00\xff\xff\x1e\x02\x1e\x01\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x57\xff\xff\x1e\x03\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x04\xff\xff\x1e\x05\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x06\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x08\x1e\x07\xff\xff\x1e\x09\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0e\xf2\x1a\x0a\xff\xff\xff\xff\x0b\x48\xff\xff\xff\xff\x07\x91\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x0a\xff\xff\x1e\x0b\xff\xff\x12\x6a\x16\x9a\x0e\xd1\xff\xff\xff\xff\x05\xf9\xff\xff\x05\xb9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x14\x0f\xcf\x0b\x3c\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\x1e\x0c\xff\xff\x10\x5d\xff\xff\xff\xff\xff\xff\x1e\x0d\x10\xbb\xff\xff\x06\x21\xff\xff\xff\xff\xff\xff\x09\xe0\xff\xff\x1e\x0e\x06\xac\x1e\x0f\xff\xff\xff\xff\xff\xff\x1e\x10\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x12\x1e\x13\xff\xff\x1e\x15\x1e\x11\xff\xff\xff\xff\x1e\x14\xff\xff\xff\xff\xff\xff\x07\x59\xff\xff\xff\xff\xff\xff\x1e\x16\xff\xff\x1e\x17\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x18\x1e\x19\xff\xff\xff\xff\xff\xff\x1e\x1a\xff\xff\xff\xff\x1e\x1c\xff\xff\xff\xff\xff\xff\x1e\x1b\xff\xff\x1e\x1e\x1e\x21\xff\xff\xff\xff\xff\xff\x1e\x1d\x1e\x1f\x1e\x20\xff\xff\xff\xff\x1e\x22\xff\xff\x08\x00\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0a\x71\x1e\x23\x1e\x24\x09\x41\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x25\xff\xff\xff\xff\x06\xdd\xff\xff\xff\xff\xff\xff\x0e\x6e\x1e\x26\x1e\x27\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xf9\x0e\x29\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x28\xff\xff\xff\xff\xff\xff\xff\xff\x0e\x9d\xff\xff\xff\xff\x0c\x8a\x06\x37\x08\x2c\xff\xff\x08\x2d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x13\x1e\x2d\x08\x2e\xff\xff\xff\xff\x06\xad\xff\xff\xff\xff\x1e\x2c\xff\xff\xff\xff\x1e\x2a\xff\xff\x1e\x2b\xff\xff\x1e\x29\xff\xff\xff\xff\x1e\x37\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x2e\x1e\x2f\xff\xff\xff\xff\x1e\x30\x1e\x31\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x33\xff\xff\xff\xff\x1e\x32\xff\xff\xff\xff\xff\xff\x0a\xb8" +
	"\xff\xff\x1e\x34\xff\xff\xff\xff\xff\xff\x1e\x36\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x92\x1e\x35\xff\xff\xff\xff\x0c\x5b\x08\xb1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x38\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x8b\xff\xff\xff\xff\x1e\x39\xff\xff\xff\xff\xff\xff\xff\xff\x0d\xeb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x3a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x40\xff\xff\x1e\x3d\xff\xff\x1e\x3c\x1e\x3e\xff\xff\x1e\x3b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x41\xff\xff\x1e\x44\xff\xff\xff\xff\x08\x01\x1e\x43\xff\xff\xff\xff\xff\xff\x1e\x45\xff\xff\xff\xff\x1e\x46\xff\xff\x1e\x48\x1e\x47\xff\xff\xff\xff\xff\xff\x1e\x49\x1e\x4b\x1e\x4a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x5c\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x4c\xff\xff\xff\xff\x1e\x4d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\xdb\xff\xff\xff\xff\xff\xff\x1e\x4e\xff\xff\xff\xff\xff\xff\x1e\x4f\xff\xff\xff\xff\xff\xff\x0b\x91\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x50\xff\xff\x1e\x51\xff\xff\x1e\x52\x1e\x53\xff\xff\xff\xff\xff\xff\x09\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x54\x1e\x55\xff\xff\xff\xff\x1e\x56\x1e\x57\xff\xff\xff\xff\x1e\x58\xff\xff\xff\xff\xff\xff\x0e\xaf\x1e\x5a\xff\xff\x0f\x05\x1e\x5b\x1e\x59\xff\xff\x1e\x5d\xff\xff\xff\xff\x1e\x5c\xff\xff\xff\xff\x1e\x5e\xff\xff\xff\xff\xff\xff\x1e\x5f\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x60\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x61\xff\xff\x1e\x62\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x63\xff\xff\xff\xff\x1e\x64\x1e\x65\xff\xff\x1e\x66\xff\xff\x1e\x67\x1e\x68\x1e\x69\x1e\x6a\xff\xff\xff\xff\xff\xff\x1e\x6b\x1e\x6c\xff\xff\x16\x94\x1e\x6d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x19\x76\x07\x93\xff\xff\xff\xff\xff\xff\xff\xff\x06\xc0\x09\x70\x1e\x6f\x1e\x6e\x10\x23\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x71\x1e\x72\x1e\x70\xff\xff\x1e\x73\xff\xff\xff\xff\x10\x02\xff\xff\xff\xff\xff\xff\x1e\x74\xff\xff\x07\xdb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x11\x44\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x75\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x77\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x05\xbc\xff\xff\xff\xff\x1e\x78\x0f\x69\x1e\x76\xff\xff\xff\xff\x1e\x79\x1e\x7a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x7b\x1e\x7c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x7d\xff\xff\x10\x0e\x09\xcc\xff\xff\x09\xb8\x0c\x0e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x7e\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x81\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x7f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x82\xff\xff\xff\xff\x08\xef\x1e\x80\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x83\xff\xff\x1e\x84\x1e\x85\xff\xff\x1e\x89\xff\xff\x09\xc9\xff\xff\xff\xff\xff\xff\xff\xff\x0c\xa2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x8a\x1e\x87\x1e\x86\x1e\x88\xff\xff\xff\xff\xff\xff\x08\x7e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x8e\x1e\x8d\x1e\x8c\xff\xff\xff\xff\x05\xb1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x98\xff\xff\x1e\x94\xff\xff\x1e\x95\x1e\x91\x1e\x97\xff\xff\x1e\x93\x07\x02\xff\xff\xff\xff\x11\x6b\xff\xff\x1e\x96\x1e\x92\x1e\x90\x1e\x8f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x9a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\x9d\xff\xff\xff\xff\x1e\x9c\x1e\x9b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x28\x1e\x99\x05\xf1\x1e\x9e\xff\xff\x1e\xa0\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x07\x0f\x1e\x8b\x06\x16\xff\xff\xff\xff\x1e\xa2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xa1\x1e\x9f\x0c\xcc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\x10\xff\xff\xff\xff\xff\xff\xff\xff\x11\x18\xff\xff\xff\xff\x1e\xa3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xa4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xa5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xa6\xff\xff\x1e\xa7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x39\xff\xff\x1e\xa8\xff\xff\x0e\xb5\xff\xff\x1e\xad\x1e\xa9\xff\xff\xff\xff\xff\xff\x1e\xaa\xff\xff\xff\xff\x0f\xd0\x10\x42\xff\xff\x0e\x0e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\x1e\xae\xff\xff\xff\xff\x1e\xaf\x0d\xfc\x1e\xac\x1e\xab\xff\xff\xff\xff\xff\xff\xff\xff\x06\x68\xff\xff\xff\xff\xff\xff\x1e\xb7\xff\xff\xff\xff\x1e\xb6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x06\x55\xff\xff\xff\xff\xff\xff\x1e\xb4\xff\xff\xff\xff\xff\xff\x1e\xb3\xff\xff\xff\xff\x1e\xb1\xff\xff\x07\x1b\xff\xff\x1e\xb0\x0a\x30\x06\x67\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x09\x43\xff\xff\xff\xff\x1e\xba\x1e\xb9\xff\xff\x1e\xb8\xff\xff\xff\xff\x1e\xb5\xff\xff\x1e\xbb\xff\xff\x1e\xbc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xc4\x1e\xc3\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xc5\xff\xff\xff\xff\x06\x0c\x1e\xc0\x1e\xc1\xff\xff\x09\x54\x10\x37\xff\xff\xff\xff\x1e\xc2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\xd1\xff\xff\xff\xff\x1e\xca\xff\xff\xff\xff\x1e\xc6\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xcb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xc8\xff\xff\x1e\xc7\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x08\x7b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xcc\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xcd\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xce\xff\xff\x1e\xc9\xff\xff\xff\xff\xff\xff\x1e\xb2\xff\xff\xff\xff\x1e\xcf\xff\xff\x0d\x5f\xff\xff\xff\xff\xff\xff\x1e\xd3\xff\xff\x1e\xd4\x1e\xd2\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xd1\x1e\xd7\xff\xff\x1e\xd0\xff\xff\x1e\xd5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xd6\xff\xff\xff\xff\xff\xff\x1e\xd9\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xd8\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xdb\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xdc\xff\xff\x1e\xdd\xff\xff\xff\xff\x11\x68\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xda\x0c\xa9\x09\xab\xff\xff\xff\xff\x1e\xde\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xdf\x1e\xe0\xff\xff\xff\xff\x1e\xe1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xe2\xff\xff\xff\xff\x08\xb2\x1e\xe3\xff\xff\xff\xff\xff\xff\x1e\xe4\xff\xff\x0a\x2d\xff\xff\x1e\xe5\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xe6\xff\xff\xff\xff\x1e\xe7\x1e\xe8\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xeb\x1e\xe9\x11\x5b\xff\xff\x1e\xea\xff\xff\x11\x2d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xec\xff\xff\x11\x19\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xed\x0e\x9e\xff\xff\xff\xff\x1e\xee\x1e\xf0\xff\xff\xff\xff\x1e\xf1\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xef\x09\x4d\x10\x4b\x10\x03\x14\x35\xff\xff\x16\xc0\x10\x1b\xff\xff\xff\xff\xff\xff\xff\xff\x06\x69\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xf3\x07\xaf\x1e\xf4\x1e\xf5\x1e\xf6\xff\xff\x09\x55\xff\xff\x1e\xf7\xff\xff\xff\xff\xff\xff\x17\xd2\x10\x59\xff\xff\x0c\xa1\x1e\xf8\x1e\xfa\x1e\xf9\xff\xff\x1e\xfb\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xfc\xff\xff\xff\xff\x1e\xfd\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1e\xfe\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x00\xff\xff\x1f\x01\x1f\x02\xff\xff\x1f\x03\xff\xff\x1f\x04\x1f\x05\x1f\x06\xff\xff\xff\xff" +
	"\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x07\x1f\x08\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0d\x83\xff\xff\xff\xff\xff\xff\xff\xff\x08\xdb\xff\xff\x1f\x0a\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0c\x2c\x1f\x0b\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x0c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x0f\x00\xff\xff\xff\xff\x1f\x0d\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x0e\x18\xd6\xff\xff\xff\xff\x1c\x58\x1d\xeb\xff\xff\xff\xff\x1f\x0f\xff\xff\x1f\x10\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x12\x1f\x13\x1f\x14\x11\x2e\x1f\x11\xff\xff\xff\xff\x1f\x15\x1f\x16\xff\xff\xff\xff\x1f\x18\xff\xff\x1f\x17\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x1a\xff\xff\xff\xff\xff\xff\x1f\x1b\x1f\x19\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x10\xf4\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x1c\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x1f\x1d\x18\xf3\xff\xff\xff\xff\x1f\x1e\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"

// vxKanjiVal is the Kanji value of r, or -1.
func vxKanjiVal(r int) int {
	if r < 0x4e00 || r > 0x9fff {
		return -1
	}
	i := (r - 0x4e00) * 2
	v := int(vxKanjiTab[i])<<8 | int(vxKanjiTab[i+1])
	if v == 0xffff {
		return -1
	}
	return v
}

// vxKanjiChar is a character of a page with a symbolic low byte; any gives every
// character of the page, otherwise only those a Kanji segment can hold.
func vxKanjiChar(name string, page int, any bool) (utf []byte, val int) {
	lo := vxU8(name)
	r := page<<8 | int(lo)
	val = vxKanjiVal(r)
	if !any {
		vxAssume(val >= 0)
	}
	return []byte{0xe0 | byte(page>>4), 0x80 | byte(page&15)<<2 | lo>>6, 0x80 | lo&0x3f}, val
}
