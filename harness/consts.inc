/* written by tools/consts.py: constant, number of the encoding in spec/names.json */
X(ASCII, 0)
X(UTF8, 1)
X(UCS2, 2)
X(UCS2BE, 3)
X(UCS2LE, 4)
X(UCS4, 5)
X(UCS4BE, 6)
X(UCS4LE, 7)
X(UTF16, 8)
X(UTF16BE, 9)
X(UTF16LE, 10)
X(UTF32, 11)
X(UTF32BE, 12)
X(UTF32LE, 13)
X(UTF7, 14)
X(UCS2_INTERNAL, 15)
X(UCS2_SWAPPED, 16)
X(UCS4_INTERNAL, 17)
X(UCS4_SWAPPED, 18)
X(C99, 19)
X(JAVA, 20)
X(EUC_JP, 21)
X(SHIFT_JIS, 22)
X(IBM932, 23)
X(ISO2022_JP, 24)
X(ISO2022_JP1, 25)
X(ISO2022_JP2, 26)
X(ISO2022_JPMS, 27)
X(GB2312, 28)
X(GBK, 29)
X(CP936, 30)
X(GB18030_2005, 31)
X(GB18030_2022, 32)
X(ISO2022_CN, 33)
X(ISO2022_CN_EXT, 34)
X(HZ, 35)
X(EUC_TW, 36)
X(BIG5, 37)
X(WINDOWS950, 38)
X(BIG5HKSCS_1999, 39)
X(BIG5HKSCS_2001, 40)
X(BIG5HKSCS_2004, 41)
X(BIG5HKSCS_2008, 42)
X(EUC_KR, 43)
X(UHC, 44)
X(JOHAB, 45)
X(ISO2022_KR, 46)
X(DEC_KANJI, 47)
X(DEC_HANYU, 48)
X(ISO8859_1, 49)
X(ISO8859_2, 50)
X(ISO8859_3, 51)
X(ISO8859_4, 52)
X(ISO8859_5, 53)
X(ISO8859_6, 54)
X(ISO8859_7, 55)
X(ISO8859_8, 56)
X(ISO8859_9, 57)
X(ISO8859_10, 58)
X(ISO8859_11, 59)
X(ISO8859_13, 60)
X(ISO8859_14, 61)
X(ISO8859_15, 62)
X(ISO8859_16, 63)
X(KOI8_R, 64)
X(KOI8_U, 65)
X(KOI8_RU, 66)
X(MSEE, 67)
X(MSCYRL, 68)
X(MSANSI, 69)
X(MSGREEK, 70)
X(MSTURK, 71)
X(MSHEBR, 72)
X(MSARAB, 73)
X(WINBALTRIM, 74)
X(WINDOWS1258, 75)
X(IBM850, 76)
X(IBM862, 77)
X(IBM866, 78)
X(IBM1131, 79)
X(MACINTOSH, 80)
X(MAC_CENTRALEUROPE, 81)
X(MAC_ICELAND, 82)
X(MAC_CROATIAN, 83)
X(MAC_ROMANIA, 84)
X(MAC_CYRILLIC, 85)
X(MAC_UKRAINE, 86)
X(MAC_GREEK, 87)
X(MAC_TURKISH, 88)
X(MAC_HEBREW, 89)
X(MAC_ARABIC, 90)
X(MAC_THAI, 91)
X(HPROMAN8, 92)
X(NEXTSTEP, 93)
X(ARMSCII8, 94)
X(GEORGIANACADEMY, 95)
X(GEORGIANPS, 96)
X(KOI8T, 97)
X(PT154, 98)
X(RK1048, 99)
X(MULELAO1, 100)
X(IBMCP1133, 101)
X(TIS620, 102)
X(WINDOWS874, 103)
X(VISCII, 104)
X(TCVN, 105)
X(JP, 106)
X(JISX0201, 107)
X(JISX0208, 108)
X(JISX0212, 109)
X(GB1988_80, 110)
X(GB2312_80, 111)
X(CNGBISOIR165, 112)
X(KOREAN, 113)
X(IBM856, 114)
X(IBM922, 115)
X(IBM943, 116)
X(IBM1046, 117)
X(IBM1124, 118)
X(IBM1129, 119)
X(IBM1161, 120)
X(IBM1162, 121)
X(IBM1163, 122)
X(CP437, 123)
X(CP737, 124)
X(CP775, 125)
X(CP852, 126)
X(CP853, 127)
X(CP855, 128)
X(CP857, 129)
X(CP858, 130)
X(CP860, 131)
X(CP861, 132)
X(CP863, 133)
X(CP864, 134)
X(CP865, 135)
X(CP869, 136)
X(CP1125, 137)
X(EBCDIC_037, 138)
X(EBCDIC_273, 139)
X(EBCDIC_277, 140)
X(EBCDIC_278, 141)
X(EBCDIC_280, 142)
X(EBCDIC_282, 143)
X(EBCDIC_284, 144)
X(EBCDIC_285, 145)
X(EBCDIC_297, 146)
X(EBCDIC_423, 147)
X(EBCDIC_424, 148)
X(EBCDIC_425, 149)
X(EBCDIC_500, 150)
X(EBCDIC_838, 151)
X(EBCDIC_870, 152)
X(EBCDIC_871, 153)
X(EBCDIC_875, 154)
X(EBCDIC_880, 155)
X(EBCDIC_905, 156)
X(EBCDIC_924, 157)
X(EBCDIC_1025, 158)
X(EBCDIC_1026, 159)
X(EBCDIC_1047, 160)
X(EBCDIC_1097, 161)
X(EBCDIC_1112, 162)
X(EBCDIC_1122, 163)
X(EBCDIC_1123, 164)
X(EBCDIC_1130, 165)
X(EBCDIC_1132, 166)
X(EBCDIC_1137, 167)
X(EBCDIC_1140, 168)
X(EBCDIC_1141, 169)
X(EBCDIC_1142, 170)
X(EBCDIC_1143, 171)
X(EBCDIC_1144, 172)
X(EBCDIC_1145, 173)
X(EBCDIC_1146, 174)
X(EBCDIC_1147, 175)
X(EBCDIC_1148, 176)
X(EBCDIC_1149, 177)
X(EBCDIC_1153, 178)
X(EBCDIC_1154, 179)
X(EBCDIC_1155, 180)
X(EBCDIC_1156, 181)
X(EBCDIC_1157, 182)
X(EBCDIC_1158, 183)
X(EBCDIC_1160, 184)
X(EBCDIC_1164, 185)
X(EBCDIC_1165, 186)
X(EBCDIC_1166, 187)
X(EBCDIC_4971, 188)
X(EBCDIC_12712, 189)
X(EBCDIC_16804, 190)
X(EUC_JISX0213, 191)
X(SHIFT_JISX0213, 192)
X(ISO2022_JP3, 193)
X(BIG5_2003, 194)
X(TDS565, 195)
X(ATARIST, 196)
X(RISCOS_LATIN1, 197)
X(GB18030, 32)
X(BIG5HKSCS, 42)
X(CP1250, 67)
X(CP1251, 68)
X(CP1252, 69)
X(CP1253, 70)
X(CP1254, 71)
X(CP1255, 72)
X(CP1256, 73)
X(CP1257, 74)
X(CP1258, 75)
X(MAC_ROMAN, 80)
X(ATARI, 196)
