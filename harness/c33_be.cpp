#include "c33.h"
PBT_ARM(calls_big, 350, 6000, false, 30) { calls<rpc::BE>(c); }
