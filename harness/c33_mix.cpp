#include "c33.h"
PBT_ARM(calls_mixed, 350, 6000, false, 30) { calls<rpc::MIX>(c); }
