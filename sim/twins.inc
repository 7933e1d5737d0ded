// made by tools/find_twins.cpp: {algorithm, message, message}, the messages being decimal numbers
	{0, 38501, 133756},   // word 0 of blake1-224
	{0, 9655, 32351},   // word 1 of blake1-224
	{0, 95063, 117047},   // word 2 of blake1-224
	{0, 26305, 91600},   // word 3 of blake1-224
	{0, 41083, 72967},   // word 4 of blake1-224
	{0, 78391, 94377},   // word 5 of blake1-224
	{0, 5853, 41390},   // word 6 of blake1-224
	{0, 755, 108989},   // xor of words of blake1-224
	{0, 51538, 86148},   // xor of even words of blake1-224
	{0, 49361, 138273},   // xor of odd words of blake1-224
	{0, 1122942, 1968201},   // first 5 bytes of blake1-224
	{0, 623192, 972440},   // last 5 bytes of blake1-224
	{0, 52129, 133168},   // first byte of each long word of blake1-224
	{0, 363, 5249},   // last byte of each long word of blake1-224
	{1, 53225, 67943},   // word 0 of blake1-256
	{1, 43996, 118229},   // word 1 of blake1-256
	{1, 44360, 56489},   // word 2 of blake1-256
	{1, 3704, 45695},   // word 3 of blake1-256
	{1, 44201, 132723},   // word 4 of blake1-256
	{1, 29670, 68872},   // word 5 of blake1-256
	{1, 25384, 112111},   // word 6 of blake1-256
	{1, 8400, 133244},   // word 7 of blake1-256
	{1, 37827, 46140},   // xor of words of blake1-256
	{1, 69851, 106686},   // xor of even words of blake1-256
	{1, 3206, 19775},   // xor of odd words of blake1-256
	{1, 44768, 1222211},   // first 5 bytes of blake1-256
	{1, 378991, 1111706},   // last 5 bytes of blake1-256
	{1, 69297, 81106},   // first byte of each long word of blake1-256
	{1, 4033, 130867},   // last byte of each long word of blake1-256
	{2, 9188, 36904},   // word 0 of blake1-384
	{2, 67016, 128334},   // word 1 of blake1-384
	{2, 72254, 87584},   // word 2 of blake1-384
	{2, 3111, 108787},   // word 3 of blake1-384
	{2, 12022, 113244},   // word 4 of blake1-384
	{2, 30200, 66640},   // word 5 of blake1-384
	{2, 12886, 34580},   // word 6 of blake1-384
	{2, 18371, 30750},   // word 7 of blake1-384
	{2, 127085, 158135},   // word 8 of blake1-384
	{2, 57961, 165146},   // word 9 of blake1-384
	{2, 15547, 37392},   // word 10 of blake1-384
	{2, 99824, 108128},   // word 11 of blake1-384
	{2, 19675, 49994},   // xor of words of blake1-384
	{2, 10642, 68972},   // xor of even words of blake1-384
	{2, 10522, 81914},   // xor of odd words of blake1-384
	{2, 1237122, 1352323},   // first 5 bytes of blake1-384
	{2, 440405, 763660},   // last 5 bytes of blake1-384
	{3, 101789, 110421},   // word 0 of blake1-512
	{3, 531, 66680},   // word 1 of blake1-512
	{3, 27642, 31141},   // word 2 of blake1-512
	{3, 59778, 101051},   // word 3 of blake1-512
	{3, 42244, 43176},   // word 4 of blake1-512
	{3, 10065, 43277},   // word 5 of blake1-512
	{3, 44831, 71114},   // word 6 of blake1-512
	{3, 121481, 171170},   // word 7 of blake1-512
	{3, 25718, 32067},   // word 8 of blake1-512
	{3, 34243, 114734},   // word 9 of blake1-512
	{3, 13571, 20714},   // word 10 of blake1-512
	{3, 24008, 45372},   // word 11 of blake1-512
	{3, 26256, 94393},   // word 12 of blake1-512
	{3, 112959, 151563},   // word 13 of blake1-512
	{3, 88923, 89369},   // word 14 of blake1-512
	{3, 51463, 68181},   // word 15 of blake1-512
	{3, 25892, 42980},   // xor of words of blake1-512
	{3, 33990, 90938},   // xor of even words of blake1-512
	{3, 2017, 8136},   // xor of odd words of blake1-512
	{3, 1573033, 1860131},   // first 5 bytes of blake1-512
	{3, 784282, 902305},   // last 5 bytes of blake1-512
	{4, 29544, 101170},   // word 0 of blake2
	{4, 45519, 95961},   // word 1 of blake2
	{4, 33261, 60584},   // word 2 of blake2
	{4, 55195, 57574},   // word 3 of blake2
	{4, 86652, 113884},   // word 4 of blake2
	{4, 80314, 92686},   // word 5 of blake2
	{4, 58308, 60482},   // word 6 of blake2
	{4, 28362, 92497},   // word 7 of blake2
	{4, 37791, 46577},   // word 8 of blake2
	{4, 16003, 61238},   // word 9 of blake2
	{4, 66680, 150926},   // word 10 of blake2
	{4, 80375, 128826},   // word 11 of blake2
	{4, 45401, 50923},   // word 12 of blake2
	{4, 61533, 121084},   // word 13 of blake2
	{4, 7156, 38883},   // word 14 of blake2
	{4, 28870, 58382},   // word 15 of blake2
	{4, 23775, 157773},   // xor of words of blake2
	{4, 66037, 99366},   // xor of even words of blake2
	{4, 27226, 30776},   // xor of odd words of blake2
	{4, 633945, 1117340},   // first 5 bytes of blake2
	{4, 16368, 580681},   // last 5 bytes of blake2
	{5, 25650, 50160},   // word 0 of blake2s
	{5, 40185, 91534},   // word 1 of blake2s
	{5, 41716, 44744},   // word 2 of blake2s
	{5, 26972, 85410},   // word 3 of blake2s
	{5, 110276, 122159},   // word 4 of blake2s
	{5, 50099, 166674},   // word 5 of blake2s
	{5, 71879, 84489},   // word 6 of blake2s
	{5, 44629, 59520},   // word 7 of blake2s
	{5, 30964, 38526},   // xor of words of blake2s
	{5, 19972, 94443},   // xor of even words of blake2s
	{5, 46064, 112829},   // xor of odd words of blake2s
	{5, 443400, 1965653},   // first 5 bytes of blake2s
	{5, 145009, 1136180},   // last 5 bytes of blake2s
	{5, 65801, 108515},   // first byte of each long word of blake2s
	{5, 3777, 43672},   // last byte of each long word of blake2s
	{7, 52838, 81052},   // word 0 of cshake-128
	{7, 9430, 134617},   // word 1 of cshake-128
	{7, 55507, 56383},   // word 2 of cshake-128
	{7, 13380, 61060},   // word 3 of cshake-128
	{7, 55872, 85944},   // word 4 of cshake-128
	{7, 25473, 56913},   // word 5 of cshake-128
	{7, 9849, 11738},   // word 6 of cshake-128
	{7, 38175, 62200},   // word 7 of cshake-128
	{7, 55522, 76272},   // xor of words of cshake-128
	{7, 79441, 83114},   // xor of even words of cshake-128
	{7, 37840, 155168},   // xor of odd words of cshake-128
	{7, 1025294, 1820137},   // first 5 bytes of cshake-128
	{7, 386871, 1123522},   // last 5 bytes of cshake-128
	{7, 18561, 103672},   // first byte of each long word of cshake-128
	{7, 30950, 55536},   // last byte of each long word of cshake-128
	{8, 86094, 172463},   // word 0 of cshake-256
	{8, 101680, 173979},   // word 1 of cshake-256
	{8, 21312, 73488},   // word 2 of cshake-256
	{8, 102617, 133275},   // word 3 of cshake-256
	{8, 125856, 128002},   // word 4 of cshake-256
	{8, 30938, 129001},   // word 5 of cshake-256
	{8, 120284, 125655},   // word 6 of cshake-256
	{8, 11335, 20634},   // word 7 of cshake-256
	{8, 14972, 138744},   // xor of words of cshake-256
	{8, 54677, 85148},   // xor of even words of cshake-256
	{8, 31639, 46080},   // xor of odd words of cshake-256
	{8, 1528279, 1641286},   // first 5 bytes of cshake-256
	{8, 44524, 811575},   // last 5 bytes of cshake-256
	{8, 19454, 72183},   // first byte of each long word of cshake-256
	{8, 68189, 84180},   // last byte of each long word of cshake-256
	{12, 0, 1},   // word 0 of fnv64_0
	{12, 224191, 816080},   // word 1 of fnv64_0
	{12, 34189, 34772},   // xor of words of fnv64_0
	{12, 0, 1},   // xor of even words of fnv64_0
	{12, 224191, 816080},   // xor of odd words of fnv64_0
	{12, 0, 1},   // first 5 bytes of fnv64_0
	{12, 0, 1},   // first byte of each word of fnv64_0
	{12, 9, 56},   // last byte of each word of fnv64_0
	{13, 0, 1},   // word 0 of fnv64_1
	{13, 147081, 713190},   // word 1 of fnv64_1
	{13, 13079, 13116},   // xor of words of fnv64_1
	{13, 0, 1},   // xor of even words of fnv64_1
	{13, 147081, 713190},   // xor of odd words of fnv64_1
	{13, 0, 1},   // first 5 bytes of fnv64_1
	{13, 0, 1},   // first byte of each word of fnv64_1
	{13, 162, 180},   // last byte of each word of fnv64_1
	{14, 261593, 492320},   // word 0 of fnv64_1a
	{14, 274991, 802880},   // word 1 of fnv64_1a
	{14, 44257, 59801},   // xor of words of fnv64_1a
	{14, 261593, 492320},   // xor of even words of fnv64_1a
	{14, 274991, 802880},   // xor of odd words of fnv64_1a
	{14, 0, 1},   // first byte of each word of fnv64_1a
	{14, 68, 86},   // last byte of each word of fnv64_1a
	{15, 45087, 52530},   // word 0 of has160
	{15, 91022, 91048},   // word 1 of has160
	{15, 6010, 6947},   // word 2 of has160
	{15, 37713, 64645},   // word 3 of has160
	{15, 51758, 78395},   // word 4 of has160
	{15, 106604, 168337},   // xor of words of has160
	{15, 4423, 66628},   // xor of even words of has160
	{15, 12589, 87678},   // xor of odd words of has160
	{15, 158971, 550816},   // first 5 bytes of has160
	{15, 211894, 846701},   // last 5 bytes of has160
	{15, 101638, 2289186},   // first byte of each word of has160
	{15, 121518, 273049},   // last byte of each word of has160
	{16, 86170, 91729},   // word 0 of md2
	{16, 58242, 107623},   // word 1 of md2
	{16, 59501, 127490},   // word 2 of md2
	{16, 156398, 187743},   // word 3 of md2
	{16, 4469, 42890},   // xor of words of md2
	{16, 98015, 116056},   // xor of even words of md2
	{16, 23381, 26675},   // xor of odd words of md2
	{16, 495692, 815107},   // first 5 bytes of md2
	{16, 377524, 753646},   // last 5 bytes of md2
	{16, 70317, 97300},   // first byte of each word of md2
	{16, 48954, 61708},   // last byte of each word of md2
	{17, 58714, 151420},   // word 0 of md4
	{17, 41666, 76855},   // word 1 of md4
	{17, 2564, 124300},   // word 2 of md4
	{17, 15427, 112410},   // word 3 of md4
	{17, 38645, 119290},   // xor of words of md4
	{17, 18133, 54255},   // xor of even words of md4
	{17, 128687, 143229},   // xor of odd words of md4
	{17, 1581584, 3347232},   // first 5 bytes of md4
	{17, 885605, 1023660},   // last 5 bytes of md4
	{17, 78633, 91764},   // first byte of each word of md4
	{17, 36071, 37108},   // last byte of each word of md4
	{18, 25302, 82945},   // word 0 of md5
	{18, 26627, 69583},   // word 1 of md5
	{18, 4514, 47529},   // word 2 of md5
	{18, 86786, 88266},   // word 3 of md5
	{18, 9529, 20934},   // xor of words of md5
	{18, 19417, 26681},   // xor of even words of md5
	{18, 608, 16304},   // xor of odd words of md5
	{18, 363976, 441591},   // first 5 bytes of md5
	{18, 105099, 1339724},   // last 5 bytes of md5
	{18, 49916, 72954},   // first byte of each word of md5
	{18, 101055, 110693},   // last byte of each word of md5
	{19, 45129, 98064},   // word 0 of ripemd-128
	{19, 295, 72946},   // word 1 of ripemd-128
	{19, 52385, 105586},   // word 2 of ripemd-128
	{19, 23425, 74030},   // word 3 of ripemd-128
	{19, 63294, 66204},   // xor of words of ripemd-128
	{19, 26159, 27380},   // xor of even words of ripemd-128
	{19, 2506, 15635},   // xor of odd words of ripemd-128
	{19, 688694, 2197131},   // first 5 bytes of ripemd-128
	{19, 50523, 670698},   // last 5 bytes of ripemd-128
	{19, 76433, 138156},   // first byte of each word of ripemd-128
	{19, 109203, 138874},   // last byte of each word of ripemd-128
	{20, 31295, 72612},   // word 0 of ripemd-160
	{20, 79535, 239587},   // word 1 of ripemd-160
	{20, 86790, 128555},   // word 2 of ripemd-160
	{20, 25214, 68853},   // word 3 of ripemd-160
	{20, 85592, 158833},   // word 4 of ripemd-160
	{20, 30466, 35901},   // xor of words of ripemd-160
	{20, 13914, 73662},   // xor of even words of ripemd-160
	{20, 6015, 60812},   // xor of odd words of ripemd-160
	{20, 966449, 1363491},   // first 5 bytes of ripemd-160
	{20, 576200, 1669392},   // last 5 bytes of ripemd-160
	{20, 494892, 1141445},   // first byte of each word of ripemd-160
	{20, 61733, 931238},   // last byte of each word of ripemd-160
	{21, 22035, 63257},   // word 0 of ripemd-256
	{21, 8388, 95029},   // word 1 of ripemd-256
	{21, 6239, 100751},   // word 2 of ripemd-256
	{21, 13390, 22815},   // word 3 of ripemd-256
	{21, 53701, 56067},   // word 4 of ripemd-256
	{21, 2591, 9107},   // word 5 of ripemd-256
	{21, 24732, 50158},   // word 6 of ripemd-256
	{21, 19761, 22206},   // word 7 of ripemd-256
	{21, 77510, 167298},   // xor of words of ripemd-256
	{21, 9349, 131227},   // xor of even words of ripemd-256
	{21, 20902, 119320},   // xor of odd words of ripemd-256
	{21, 2634821, 2767834},   // first 5 bytes of ripemd-256
	{21, 25962, 1247935},   // last 5 bytes of ripemd-256
	{21, 12710, 103594},   // first byte of each long word of ripemd-256
	{21, 19784, 79509},   // last byte of each long word of ripemd-256
	{22, 20455, 59067},   // word 0 of ripemd-320
	{22, 40928, 118909},   // word 1 of ripemd-320
	{22, 84154, 89658},   // word 2 of ripemd-320
	{22, 61908, 85174},   // word 3 of ripemd-320
	{22, 41079, 108128},   // word 4 of ripemd-320
	{22, 67035, 112476},   // word 5 of ripemd-320
	{22, 84499, 98496},   // word 6 of ripemd-320
	{22, 1055, 25538},   // word 7 of ripemd-320
	{22, 69478, 102168},   // word 8 of ripemd-320
	{22, 12598, 41095},   // word 9 of ripemd-320
	{22, 73453, 147526},   // xor of words of ripemd-320
	{22, 31559, 124779},   // xor of even words of ripemd-320
	{22, 44858, 47549},   // xor of odd words of ripemd-320
	{22, 240064, 600317},   // first 5 bytes of ripemd-320
	{22, 208972, 242048},   // last 5 bytes of ripemd-320
	{22, 29063, 328797},   // first byte of each long word of ripemd-320
	{22, 719991, 1600200},   // last byte of each long word of ripemd-320
	{23, 21591, 84527},   // word 0 of siphash
	{23, 8695, 66944},   // word 1 of siphash
	{23, 21609, 63156},   // xor of words of siphash
	{23, 21591, 84527},   // xor of even words of siphash
	{23, 8695, 66944},   // xor of odd words of siphash
	{23, 1083901, 1158842},   // first 5 bytes of siphash
	{23, 442230, 1451625},   // last 5 bytes of siphash
	{23, 262, 349},   // first byte of each word of siphash
	{23, 128, 464},   // last byte of each word of siphash
	{24, 35097, 40686},   // word 0 of sha1
	{24, 26568, 81809},   // word 1 of sha1
	{24, 72255, 109121},   // word 2 of sha1
	{24, 13810, 77611},   // word 3 of sha1
	{24, 91043, 144686},   // word 4 of sha1
	{24, 38151, 77022},   // xor of words of sha1
	{24, 23786, 52934},   // xor of even words of sha1
	{24, 17925, 41979},   // xor of odd words of sha1
	{24, 2404582, 3768367},   // first 5 bytes of sha1
	{24, 1918654, 2952456},   // last 5 bytes of sha1
	{24, 1632829, 1657084},   // first byte of each word of sha1
	{24, 219911, 1543408},   // last byte of each word of sha1
	{25, 27009, 32599},   // word 0 of sha2-224
	{25, 2327, 41975},   // word 1 of sha2-224
	{25, 136625, 187146},   // word 2 of sha2-224
	{25, 42424, 109191},   // word 3 of sha2-224
	{25, 63958, 69839},   // word 4 of sha2-224
	{25, 85594, 110814},   // word 5 of sha2-224
	{25, 88817, 97914},   // word 6 of sha2-224
	{25, 10917, 47812},   // xor of words of sha2-224
	{25, 12491, 86954},   // xor of even words of sha2-224
	{25, 78901, 144488},   // xor of odd words of sha2-224
	{25, 93001, 243140},   // first 5 bytes of sha2-224
	{25, 1300928, 2604215},   // last 5 bytes of sha2-224
	{25, 70647, 157377},   // first byte of each long word of sha2-224
	{25, 3886, 9035},   // last byte of each long word of sha2-224
	{26, 69235, 95303},   // word 0 of sha2-256
	{26, 53272, 58328},   // word 1 of sha2-256
	{26, 20418, 67954},   // word 2 of sha2-256
	{26, 126006, 199231},   // word 3 of sha2-256
	{26, 52992, 71367},   // word 4 of sha2-256
	{26, 81064, 151920},   // word 5 of sha2-256
	{26, 50706, 58170},   // word 6 of sha2-256
	{26, 77071, 108943},   // word 7 of sha2-256
	{26, 32943, 110089},   // xor of words of sha2-256
	{26, 90319, 102479},   // xor of even words of sha2-256
	{26, 23500, 57733},   // xor of odd words of sha2-256
	{26, 1464110, 1526146},   // first 5 bytes of sha2-256
	{26, 484304, 633370},   // last 5 bytes of sha2-256
	{26, 37028, 85422},   // first byte of each long word of sha2-256
	{26, 21601, 51781},   // last byte of each long word of sha2-256
	{27, 39147, 114033},   // word 0 of sha2-384
	{27, 25735, 56823},   // word 1 of sha2-384
	{27, 28249, 92262},   // word 2 of sha2-384
	{27, 5094, 134046},   // word 3 of sha2-384
	{27, 14084, 85299},   // word 4 of sha2-384
	{27, 28670, 59839},   // word 5 of sha2-384
	{27, 63222, 98348},   // word 6 of sha2-384
	{27, 10700, 28067},   // word 7 of sha2-384
	{27, 37187, 125466},   // word 8 of sha2-384
	{27, 151588, 157674},   // word 9 of sha2-384
	{27, 44277, 105348},   // word 10 of sha2-384
	{27, 70800, 87472},   // word 11 of sha2-384
	{27, 1303, 22451},   // xor of words of sha2-384
	{27, 15865, 59256},   // xor of even words of sha2-384
	{27, 37442, 49380},   // xor of odd words of sha2-384
	{27, 87833, 1765095},   // first 5 bytes of sha2-384
	{27, 595080, 717348},   // last 5 bytes of sha2-384
	{28, 14183, 93656},   // word 0 of sha2-512
	{28, 99418, 103152},   // word 1 of sha2-512
	{28, 86860, 113832},   // word 2 of sha2-512
	{28, 37117, 67586},   // word 3 of sha2-512
	{28, 1186, 79883},   // word 4 of sha2-512
	{28, 16848, 38423},   // word 5 of sha2-512
	{28, 10623, 32407},   // word 6 of sha2-512
	{28, 23136, 24778},   // word 7 of sha2-512
	{28, 11651, 39480},   // word 8 of sha2-512
	{28, 26236, 154867},   // word 9 of sha2-512
	{28, 172329, 172853},   // word 10 of sha2-512
	{28, 9206, 66583},   // word 11 of sha2-512
	{28, 49481, 100985},   // word 12 of sha2-512
	{28, 26196, 75279},   // word 13 of sha2-512
	{28, 8561, 134972},   // word 14 of sha2-512
	{28, 2774, 63596},   // word 15 of sha2-512
	{28, 31134, 66201},   // xor of words of sha2-512
	{28, 24229, 38614},   // xor of even words of sha2-512
	{28, 16111, 67033},   // xor of odd words of sha2-512
	{28, 411210, 2443641},   // first 5 bytes of sha2-512
	{28, 1038669, 1180759},   // last 5 bytes of sha2-512
	{29, 5254, 15944},   // word 0 of sha2-512-224
	{29, 17572, 40593},   // word 1 of sha2-512-224
	{29, 15649, 119130},   // word 2 of sha2-512-224
	{29, 35843, 141294},   // word 3 of sha2-512-224
	{29, 70330, 73479},   // word 4 of sha2-512-224
	{29, 26154, 38074},   // word 5 of sha2-512-224
	{29, 961, 36575},   // word 6 of sha2-512-224
	{29, 27430, 62015},   // xor of words of sha2-512-224
	{29, 14319, 31413},   // xor of even words of sha2-512-224
	{29, 14200, 148875},   // xor of odd words of sha2-512-224
	{29, 195505, 1119994},   // first 5 bytes of sha2-512-224
	{29, 453655, 705770},   // last 5 bytes of sha2-512-224
	{29, 194604, 209063},   // first byte of each long word of sha2-512-224
	{29, 815, 3586},   // last byte of each long word of sha2-512-224
	{30, 38062, 193887},   // word 0 of sha2-512-256
	{30, 37609, 55526},   // word 1 of sha2-512-256
	{30, 52759, 61693},   // word 2 of sha2-512-256
	{30, 62007, 105361},   // word 3 of sha2-512-256
	{30, 22948, 57167},   // word 4 of sha2-512-256
	{30, 38331, 102805},   // word 5 of sha2-512-256
	{30, 16374, 19705},   // word 6 of sha2-512-256
	{30, 31815, 45480},   // word 7 of sha2-512-256
	{30, 91196, 129385},   // xor of words of sha2-512-256
	{30, 31808, 130392},   // xor of even words of sha2-512-256
	{30, 5172, 76990},   // xor of odd words of sha2-512-256
	{30, 1707004, 1980833},   // first 5 bytes of sha2-512-256
	{30, 665729, 2097835},   // last 5 bytes of sha2-512-256
	{30, 79046, 111571},   // first byte of each long word of sha2-512-256
	{30, 24052, 54705},   // last byte of each long word of sha2-512-256
	{31, 113621, 128697},   // word 0 of sha3-224
	{31, 56556, 61473},   // word 1 of sha3-224
	{31, 17189, 79696},   // word 2 of sha3-224
	{31, 39981, 131516},   // word 3 of sha3-224
	{31, 56555, 60409},   // word 4 of sha3-224
	{31, 14550, 29834},   // word 5 of sha3-224
	{31, 32162, 63099},   // word 6 of sha3-224
	{31, 41678, 69503},   // xor of words of sha3-224
	{31, 64858, 100036},   // xor of even words of sha3-224
	{31, 49705, 83552},   // xor of odd words of sha3-224
	{31, 1995276, 2438712},   // first 5 bytes of sha3-224
	{31, 71579, 854863},   // last 5 bytes of sha3-224
	{31, 19047, 29785},   // first byte of each long word of sha3-224
	{31, 9423, 12603},   // last byte of each long word of sha3-224
	{32, 22063, 28936},   // word 0 of sha3-256
	{32, 101167, 108855},   // word 1 of sha3-256
	{32, 4551, 43167},   // word 2 of sha3-256
	{32, 203, 91424},   // word 3 of sha3-256
	{32, 10389, 149780},   // word 4 of sha3-256
	{32, 29471, 75539},   // word 5 of sha3-256
	{32, 6642, 83638},   // word 6 of sha3-256
	{32, 29143, 43600},   // word 7 of sha3-256
	{32, 24633, 48597},   // xor of words of sha3-256
	{32, 9092, 101538},   // xor of even words of sha3-256
	{32, 19950, 49648},   // xor of odd words of sha3-256
	{32, 526664, 2227123},   // first 5 bytes of sha3-256
	{32, 1131477, 1397254},   // last 5 bytes of sha3-256
	{32, 42533, 83630},   // first byte of each long word of sha3-256
	{32, 35651, 121930},   // last byte of each long word of sha3-256
	{33, 97502, 99001},   // word 0 of sha3-384
	{33, 67984, 87931},   // word 1 of sha3-384
	{33, 43083, 115146},   // word 2 of sha3-384
	{33, 11527, 185348},   // word 3 of sha3-384
	{33, 113745, 137057},   // word 4 of sha3-384
	{33, 23325, 102428},   // word 5 of sha3-384
	{33, 10522, 87969},   // word 6 of sha3-384
	{33, 68002, 110287},   // word 7 of sha3-384
	{33, 16286, 59923},   // word 8 of sha3-384
	{33, 16963, 26309},   // word 9 of sha3-384
	{33, 44509, 76271},   // word 10 of sha3-384
	{33, 10795, 43321},   // word 11 of sha3-384
	{33, 40678, 83262},   // xor of words of sha3-384
	{33, 46783, 82608},   // xor of even words of sha3-384
	{33, 34249, 53514},   // xor of odd words of sha3-384
	{33, 1039235, 1711793},   // first 5 bytes of sha3-384
	{33, 1576893, 2638935},   // last 5 bytes of sha3-384
	{34, 16090, 118391},   // word 0 of sha3-512
	{34, 2824, 48875},   // word 1 of sha3-512
	{34, 39679, 68405},   // word 2 of sha3-512
	{34, 74547, 81234},   // word 3 of sha3-512
	{34, 6936, 68422},   // word 4 of sha3-512
	{34, 105815, 108424},   // word 5 of sha3-512
	{34, 44737, 176565},   // word 6 of sha3-512
	{34, 51007, 51102},   // word 7 of sha3-512
	{34, 10666, 49601},   // word 8 of sha3-512
	{34, 37981, 73168},   // word 9 of sha3-512
	{34, 49675, 95098},   // word 10 of sha3-512
	{34, 19594, 32317},   // word 11 of sha3-512
	{34, 26025, 102025},   // word 12 of sha3-512
	{34, 63352, 163146},   // word 13 of sha3-512
	{34, 999, 35027},   // word 14 of sha3-512
	{34, 55458, 141406},   // word 15 of sha3-512
	{34, 36339, 58677},   // xor of words of sha3-512
	{34, 16933, 33581},   // xor of even words of sha3-512
	{34, 26028, 29969},   // xor of odd words of sha3-512
	{34, 754091, 948417},   // first 5 bytes of sha3-512
	{34, 852126, 1580841},   // last 5 bytes of sha3-512
	{35, 52838, 81052},   // word 0 of shake-128
	{35, 9430, 134617},   // word 1 of shake-128
	{35, 55507, 56383},   // word 2 of shake-128
	{35, 13380, 61060},   // word 3 of shake-128
	{35, 55872, 85944},   // word 4 of shake-128
	{35, 25473, 56913},   // word 5 of shake-128
	{35, 9849, 11738},   // word 6 of shake-128
	{35, 38175, 62200},   // word 7 of shake-128
	{35, 55522, 76272},   // xor of words of shake-128
	{35, 79441, 83114},   // xor of even words of shake-128
	{35, 37840, 155168},   // xor of odd words of shake-128
	{35, 1025294, 1820137},   // first 5 bytes of shake-128
	{35, 386871, 1123522},   // last 5 bytes of shake-128
	{35, 18561, 103672},   // first byte of each long word of shake-128
	{35, 30950, 55536},   // last byte of each long word of shake-128
	{36, 86094, 172463},   // word 0 of shake-256
	{36, 101680, 173979},   // word 1 of shake-256
	{36, 21312, 73488},   // word 2 of shake-256
	{36, 102617, 133275},   // word 3 of shake-256
	{36, 125856, 128002},   // word 4 of shake-256
	{36, 30938, 129001},   // word 5 of shake-256
	{36, 120284, 125655},   // word 6 of shake-256
	{36, 11335, 20634},   // word 7 of shake-256
	{36, 14972, 138744},   // xor of words of shake-256
	{36, 54677, 85148},   // xor of even words of shake-256
	{36, 31639, 46080},   // xor of odd words of shake-256
	{36, 1528279, 1641286},   // first 5 bytes of shake-256
	{36, 44524, 811575},   // last 5 bytes of shake-256
	{36, 19454, 72183},   // first byte of each long word of shake-256
	{36, 68189, 84180},   // last byte of each long word of shake-256
	{37, 70875, 86024},   // word 0 of sm3
	{37, 59174, 68725},   // word 1 of sm3
	{37, 27010, 52508},   // word 2 of sm3
	{37, 19680, 68318},   // word 3 of sm3
	{37, 32444, 99294},   // word 4 of sm3
	{37, 12785, 78133},   // word 5 of sm3
	{37, 36858, 124948},   // word 6 of sm3
	{37, 104261, 142039},   // word 7 of sm3
	{37, 71677, 102358},   // xor of words of sm3
	{37, 16234, 29502},   // xor of even words of sm3
	{37, 47763, 63379},   // xor of odd words of sm3
	{37, 350815, 1796457},   // first 5 bytes of sm3
	{37, 493599, 747119},   // last 5 bytes of sm3
	{37, 12135, 53771},   // first byte of each long word of sm3
	{37, 5067, 81058},   // last byte of each long word of sm3
	{38, 57692, 65191},   // word 0 of tiger1-128
	{38, 40764, 50080},   // word 1 of tiger1-128
	{38, 35852, 92286},   // word 2 of tiger1-128
	{38, 50088, 85448},   // word 3 of tiger1-128
	{38, 18666, 31602},   // xor of words of tiger1-128
	{38, 49032, 52461},   // xor of even words of tiger1-128
	{38, 53277, 80894},   // xor of odd words of tiger1-128
	{38, 880626, 1505867},   // first 5 bytes of tiger1-128
	{38, 846040, 1104535},   // last 5 bytes of tiger1-128
	{38, 3744, 6371},   // first byte of each word of tiger1-128
	{38, 16049, 49788},   // last byte of each word of tiger1-128
	{39, 57692, 65191},   // word 0 of tiger1-160
	{39, 40764, 50080},   // word 1 of tiger1-160
	{39, 35852, 92286},   // word 2 of tiger1-160
	{39, 50088, 85448},   // word 3 of tiger1-160
	{39, 59090, 215783},   // word 4 of tiger1-160
	{39, 7339, 27127},   // xor of words of tiger1-160
	{39, 21476, 36391},   // xor of even words of tiger1-160
	{39, 53277, 80894},   // xor of odd words of tiger1-160
	{39, 880626, 1505867},   // first 5 bytes of tiger1-160
	{39, 44034, 1804806},   // last 5 bytes of tiger1-160
	{39, 1186721, 1663548},   // first byte of each word of tiger1-160
	{39, 1436371, 1507379},   // last byte of each word of tiger1-160
	{40, 57692, 65191},   // word 0 of tiger1-192
	{40, 40764, 50080},   // word 1 of tiger1-192
	{40, 35852, 92286},   // word 2 of tiger1-192
	{40, 50088, 85448},   // word 3 of tiger1-192
	{40, 59090, 215783},   // word 4 of tiger1-192
	{40, 102185, 133812},   // word 5 of tiger1-192
	{40, 68890, 109174},   // xor of words of tiger1-192
	{40, 21476, 36391},   // xor of even words of tiger1-192
	{40, 32477, 98230},   // xor of odd words of tiger1-192
	{40, 880626, 1505867},   // first 5 bytes of tiger1-192
	{40, 3803, 653225},   // last 5 bytes of tiger1-192
	{40, 680, 1041},   // first byte of each long word of tiger1-192
	{40, 83, 3699},   // last byte of each long word of tiger1-192
	{41, 189417, 204221},   // word 0 of tiger2-128
	{41, 7864, 68864},   // word 1 of tiger2-128
	{41, 33975, 56107},   // word 2 of tiger2-128
	{41, 146281, 163220},   // word 3 of tiger2-128
	{41, 14345, 23425},   // xor of words of tiger2-128
	{41, 12834, 64211},   // xor of even words of tiger2-128
	{41, 44062, 109861},   // xor of odd words of tiger2-128
	{41, 3213269, 3582785},   // first 5 bytes of tiger2-128
	{41, 889027, 999641},   // last 5 bytes of tiger2-128
	{41, 17063, 46756},   // first byte of each word of tiger2-128
	{41, 35639, 44104},   // last byte of each word of tiger2-128
	{42, 189417, 204221},   // word 0 of tiger2-160
	{42, 7864, 68864},   // word 1 of tiger2-160
	{42, 33975, 56107},   // word 2 of tiger2-160
	{42, 146281, 163220},   // word 3 of tiger2-160
	{42, 93836, 121464},   // word 4 of tiger2-160
	{42, 81124, 149762},   // xor of words of tiger2-160
	{42, 18520, 62693},   // xor of even words of tiger2-160
	{42, 44062, 109861},   // xor of odd words of tiger2-160
	{42, 3213269, 3582785},   // first 5 bytes of tiger2-160
	{42, 981481, 1944749},   // last 5 bytes of tiger2-160
	{42, 987182, 1169507},   // first byte of each word of tiger2-160
	{42, 356640, 1512208},   // last byte of each word of tiger2-160
	{43, 189417, 204221},   // word 0 of tiger2-192
	{43, 7864, 68864},   // word 1 of tiger2-192
	{43, 33975, 56107},   // word 2 of tiger2-192
	{43, 146281, 163220},   // word 3 of tiger2-192
	{43, 93836, 121464},   // word 4 of tiger2-192
	{43, 80560, 92096},   // word 5 of tiger2-192
	{43, 35565, 54709},   // xor of words of tiger2-192
	{43, 18520, 62693},   // xor of even words of tiger2-192
	{43, 48175, 89692},   // xor of odd words of tiger2-192
	{43, 3213269, 3582785},   // first 5 bytes of tiger2-192
	{43, 310333, 1242849},   // last 5 bytes of tiger2-192
	{43, 3303, 4306},   // first byte of each long word of tiger2-192
	{43, 973, 3471},   // last byte of each long word of tiger2-192
	{44, 66983, 96441},   // word 0 of tuple-hash-128
	{44, 16104, 21557},   // word 1 of tuple-hash-128
	{44, 1829, 81477},   // word 2 of tuple-hash-128
	{44, 94735, 244214},   // word 3 of tuple-hash-128
	{44, 68348, 75946},   // word 4 of tuple-hash-128
	{44, 23442, 85159},   // word 5 of tuple-hash-128
	{44, 14248, 37126},   // word 6 of tuple-hash-128
	{44, 51685, 120639},   // word 7 of tuple-hash-128
	{44, 14747, 71228},   // xor of words of tuple-hash-128
	{44, 30809, 100646},   // xor of even words of tuple-hash-128
	{44, 2211, 9930},   // xor of odd words of tuple-hash-128
	{44, 302320, 1320422},   // first 5 bytes of tuple-hash-128
	{44, 493957, 589944},   // last 5 bytes of tuple-hash-128
	{44, 72074, 75038},   // first byte of each long word of tuple-hash-128
	{44, 114419, 133142},   // last byte of each long word of tuple-hash-128
	{45, 359, 47026},   // word 0 of tuple-hash-256
	{45, 18323, 86930},   // word 1 of tuple-hash-256
	{45, 17710, 32891},   // word 2 of tuple-hash-256
	{45, 45951, 57702},   // word 3 of tuple-hash-256
	{45, 14218, 123421},   // word 4 of tuple-hash-256
	{45, 106416, 118391},   // word 5 of tuple-hash-256
	{45, 22201, 54475},   // word 6 of tuple-hash-256
	{45, 19057, 20762},   // word 7 of tuple-hash-256
	{45, 1112, 73997},   // xor of words of tuple-hash-256
	{45, 10253, 68751},   // xor of even words of tuple-hash-256
	{45, 88656, 108257},   // xor of odd words of tuple-hash-256
	{45, 1467990, 2465257},   // first 5 bytes of tuple-hash-256
	{45, 1470255, 1639848},   // last 5 bytes of tuple-hash-256
	{45, 67907, 144910},   // first byte of each long word of tuple-hash-256
	{45, 25618, 116683},   // last byte of each long word of tuple-hash-256
	{46, 65679, 69851},   // word 0 of whirlpool
	{46, 18305, 31522},   // word 1 of whirlpool
	{46, 16525, 71777},   // word 2 of whirlpool
	{46, 115601, 136003},   // word 3 of whirlpool
	{46, 4356, 57927},   // word 4 of whirlpool
	{46, 38105, 104494},   // word 5 of whirlpool
	{46, 4775, 19246},   // word 6 of whirlpool
	{46, 6393, 100625},   // word 7 of whirlpool
	{46, 13114, 25114},   // word 8 of whirlpool
	{46, 45334, 73928},   // word 9 of whirlpool
	{46, 7925, 17698},   // word 10 of whirlpool
	{46, 41304, 82818},   // word 11 of whirlpool
	{46, 15129, 91061},   // word 12 of whirlpool
	{46, 63194, 127377},   // word 13 of whirlpool
	{46, 5681, 41395},   // word 14 of whirlpool
	{46, 14878, 18797},   // word 15 of whirlpool
	{46, 24446, 44275},   // xor of words of whirlpool
	{46, 84674, 90646},   // xor of even words of whirlpool
	{46, 43785, 79117},   // xor of odd words of whirlpool
	{46, 480368, 922174},   // first 5 bytes of whirlpool
	{46, 2565740, 2759173},   // last 5 bytes of whirlpool
