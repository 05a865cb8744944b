/* the library believes it runs on a big endian host: calls of BKSystemIsBigEndian () are replaced, its definition is renamed */
#define BKSystemIsBigEndian(x) BK_SIM_HOST_##x
#define BK_SIM_HOST_void BKSystemIsBigEndianReal (void)
#define BK_SIM_HOST_ 1
