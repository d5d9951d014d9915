#include "flat_history.h"
PBT_ARM(multimap_int, 6000, 300000) { flat_history<int, int, std::less<int>, true>(c, 30); }
PBT_ARM(multimap_string_greater, 4000, 200000) { flat_history<std::string, std::string, std::greater<std::string>, true>(c, 30); }
PBT_ARM(multimap_tracked_bucket, 5000, 250000) { flat_history<Tracked, Tracked, BucketLess, true>(c, 30); }
PBT_ARM(multimap_int_bucket, 4000, 200000) { flat_history<int, std::string, BucketLess, true>(c, 30); }
PBT_ARM(multiset_int, 6000, 300000) { flat_history<int, void, std::less<int>, true>(c, 30); }
PBT_ARM(multiset_string_bucket, 4000, 200000) { flat_history<std::string, void, BucketLess, true>(c, 30); }
PBT_ARM(multiset_tracked_greater, 4000, 200000) { flat_history<Tracked, void, std::greater<Tracked>, true>(c, 30); }
