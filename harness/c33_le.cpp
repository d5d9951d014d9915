#include "c33.h"
PBT_ARM(calls_little, 500, 8000, false, 30) { calls<rpc::LE>(c); }
