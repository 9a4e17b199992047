/* gives the header-only functions of the library a body in the analysed module */
#include "BlipKit.h"
#include "BKTone.h"
#include "BKTime.h"
BKTime bkv_TimeMake(BKInt t, BKFUInt20 f) { return BKTimeMake(t, f); }
