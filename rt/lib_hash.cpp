// Contract stand-in for libstdc++'s hash table helpers: any deterministic hash and any bucket count satisfy
// std::unordered_map's contract (order of iteration is not specified).  Linked into the verified module only.
#include <unordered_map>
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t) {
    size_t h = n;
    for (size_t i = 0; i < n; ++i) h = (h * 31 + static_cast<const unsigned char*>(p)[i]) & 0xffffff;
    return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = 1 << 30; return n < 13 ? 13 : n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t, size_t) const {
    if (bkt >= 13) return {false, 0};
    _M_next_resize = 1 << 30;
    return {true, 13};
}
}
}
