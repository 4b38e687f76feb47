// Ghost construction and checking of reference counted implementations (BLObject), shared by the container contracts.
#include <blend2d/core/object.cpp>
#include "memops.inc"
static inline void* mk_impl(BLObjectCore* o, uint32_t type, size_t impl_size, bool shared, const char* label) {
  uint8_t* raw = (uint8_t*)vc_heap(sizeof(BLObjectImplHeader) + impl_size, label);
  BLObjectImplHeader* h = (BLObjectImplHeader*)raw;
  h->ref_count = shared ? vc_in("refs", 2, uint64_t(1) << 40) : 1; h->flags = BLObjectImplHeader::kRefCountedFlag;
  o->_d.clear_static_data(); o->_d.impl = (BLObjectImpl*)(raw + sizeof(BLObjectImplHeader));
  o->_d.info.bits = BLObjectInfo::from_type_with_marker(BLObjectType(type)).bits | BL_OBJECT_INFO_D_FLAG | BL_OBJECT_INFO_M_FLAG | BL_OBJECT_INFO_R_FLAG;
  return o->_d.impl;
}
static inline size_t refs_of(const void* impl) { return ((const BLObjectImplHeader*)impl)[-1].ref_count; }
static inline size_t impl_room(const void* impl) { return vc_objsize(impl) - vc_offset(impl); }
static inline bool same_bits(const BLObjectDetail& a, const BLObjectDetail& b) { return a.u64_data[0] == b.u64_data[0] && a.u64_data[1] == b.u64_data[1]; }
