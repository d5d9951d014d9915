#include "flat_history.h"
PBT_ARM(map_int, 6000, 300000) { flat_history<int, int, std::less<int>, false>(c, 30); }
PBT_ARM(map_string_greater, 4000, 200000) { flat_history<std::string, std::string, std::greater<std::string>, false>(c, 30); }
PBT_ARM(map_tracked_bucket, 5000, 250000) { flat_history<Tracked, Tracked, BucketLess, false>(c, 30); }
PBT_ARM(map_int_bucket, 4000, 200000) { flat_history<int, std::string, BucketLess, false>(c, 30); }
PBT_ARM(set_int, 6000, 300000) { flat_history<int, void, std::less<int>, false>(c, 30); }
PBT_ARM(set_string_bucket, 4000, 200000) { flat_history<std::string, void, BucketLess, false>(c, 30); }
PBT_ARM(set_tracked_greater, 4000, 200000) { flat_history<Tracked, void, std::greater<Tracked>, false>(c, 30); }
