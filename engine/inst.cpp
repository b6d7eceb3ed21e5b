// Instantiates the header-only templates for the element types the analyses use.
#include <inttypes.h>
#include <string.h>
#include "RingBuffer.h"
#include "ElementPool.h"
#include "LightLinkedList.h"
#include "PriorityQueue.h"
#include "FlagContainer.h"
#include "TimeSeries/TimeSeries.h"
struct C3PVerifElem { uint32_t a; uint32_t b; uint8_t c; };
template class RingBuffer<uint32_t>;
template class LinkedList<C3PVerifElem*>;
template class PriorityQueue<C3PVerifElem*>;
template class ElementPool<C3PVerifElem>;
template class TimeSeries<uint32_t>;
template class TimeSeries<int16_t>;

// Entry points: the public calls each analysis starts from, with the declared types resolved by the compiler.
#include "C3PValue/C3PType.h"
extern "C" {
  int8_t c3pv_type_set_from(uint8_t tc, void* dest, uint8_t src_tc, void* src) {  return getTypeHelper((TCode) tc)->set_from(dest, (TCode) src_tc, src);  }
  int8_t c3pv_type_get_as(uint8_t tc, void* src, uint8_t dest_tc, void* dest) {   return getTypeHelper((TCode) tc)->get_as(src, (TCode) dest_tc, dest);  }
  C3PType* c3pv_type_helper(uint8_t tc) {  return getTypeHelper((TCode) tc);  }
  uint8_t c3pv_type_code(C3PType* t) {     return (uint8_t) t->TCODE;   }
  int c3pv_type_len(C3PType* t) {          return t->FIXED_LEN;         }
  bool c3pv_type_by_copy(C3PType* t) {     return t->value_by_copy();   }
  bool c3pv_type_punned(C3PType* t) {      return t->is_punned_ptr();   }
  bool c3pv_type_is_ptr(C3PType* t) {      return t->is_ptr();          }
  bool c3pv_type_fixed(C3PType* t) {       return t->is_fixed_length(); }
  bool c3pv_type_ptr_len(C3PType* t) {     return t->is_ptr_len();      }
}
extern "C" {
  int8_t c3pv_type_risk(uint8_t a, uint8_t b) {  return C3PType::conversionRisk((TCode) a, (TCode) b);  }
  int c3pv_type_sizeof(uint8_t a) {         return sizeOfType((TCode) a);            }
  bool c3pv_type_isfixed(uint8_t a) {       return typeIsFixedLength((TCode) a);     }
  bool c3pv_type_ispunned(uint8_t a) {      return typeIsPointerPunned((TCode) a);   }
  const char* c3pv_type_name(uint8_t a) {   return typecodeToStr((TCode) a);         }
  bool c3pv_type_numeric(uint8_t a) {       return C3PType::is_numeric((TCode) a);   }
  bool c3pv_type_signed(uint8_t a) {        return C3PType::is_signed((TCode) a);    }
  bool c3pv_type_integral(uint8_t a) {      return C3PType::is_integral((TCode) a);  }
  uint8_t c3pv_int_to_tcode(uint8_t a) {    return TcodeToInt(IntToTcode(a));        }
  uint8_t c3pv_tc_i8() {   return (uint8_t) tcodeForType((int8_t) 0);    }
  uint8_t c3pv_tc_i16() {  return (uint8_t) tcodeForType((int16_t) 0);   }
  uint8_t c3pv_tc_i32() {  return (uint8_t) tcodeForType((int32_t) 0);   }
  uint8_t c3pv_tc_i64() {  return (uint8_t) tcodeForType((int64_t) 0);   }
  uint8_t c3pv_tc_u8() {   return (uint8_t) tcodeForType((uint8_t) 0);   }
  uint8_t c3pv_tc_u16() {  return (uint8_t) tcodeForType((uint16_t) 0);  }
  uint8_t c3pv_tc_u32() {  return (uint8_t) tcodeForType((uint32_t) 0);  }
  uint8_t c3pv_tc_u64() {  return (uint8_t) tcodeForType((uint64_t) 0);  }
  uint8_t c3pv_tc_bool() { return (uint8_t) tcodeForType(true);          }
  uint8_t c3pv_tc_f() {    return (uint8_t) tcodeForType(1.0f);          }
  uint8_t c3pv_tc_d() {    return (uint8_t) tcodeForType((double) 1);    }
}

// CBOR: an output that reports every byte, a listener that reports every event.
#include "cbor-cpp/cbor.h"
extern "C" {
  void c3pv_put(uint8_t);
  void c3pv_puts(const uint8_t*, int);
  void c3pv_ev_int(int64_t v);
  void c3pv_ev_uint(uint64_t v);
  void c3pv_ev_f32(float);
  void c3pv_ev_f64(double);
  void c3pv_ev_bytes(uint8_t*, int);
  void c3pv_ev_str(char*);
  void c3pv_ev_arr(int);
  void c3pv_ev_map(int);
  void c3pv_ev_tag(uint64_t);
  void c3pv_ev_special(unsigned int);
  void c3pv_ev_bool(bool);
  void c3pv_ev_null();
  void c3pv_ev_undef();
  void c3pv_ev_error();
  void c3pv_ev_extra(uint64_t, int);
}
namespace {
struct C3PVOut : public cbor::output {
  uint8_t* data() {  return nullptr;  }
  uint32_t size() {  return 0;        }
  int8_t put_byte(uint8_t v) {  c3pv_put(v);  return 0;  }
  int8_t put_bytes(const uint8_t* b, int n) {  c3pv_puts(b, n);  return 0;  }
};
struct C3PVListener : public cbor::listener {
  void on_integer(int8_t v) {    c3pv_ev_int(v);   }
  void on_integer(int16_t v) {   c3pv_ev_int(v);   }
  void on_integer(int32_t v) {   c3pv_ev_int(v);   }
  void on_integer(int64_t v) {   c3pv_ev_int(v);   }
  void on_integer(uint8_t v) {   c3pv_ev_uint(v);  }
  void on_integer(uint16_t v) {  c3pv_ev_uint(v);  }
  void on_integer(uint32_t v) {  c3pv_ev_uint(v);  }
  void on_integer(uint64_t v) {  c3pv_ev_uint(v);  }
  void on_float32(float v) {     c3pv_ev_f32(v);   }
  void on_double(double v) {     c3pv_ev_f64(v);   }
  void on_bytes(uint8_t* d, int n) {  c3pv_ev_bytes(d, n);  }
  void on_string(char* s) {      c3pv_ev_str(s);   }
  void on_array(int n) {         c3pv_ev_arr(n);   }
  void on_map(int n) {           c3pv_ev_map(n);   }
  void on_tag(unsigned int n) {  c3pv_ev_tag(n);   }
  void on_special(unsigned int c) {  c3pv_ev_special(c);  }
  void on_bool(bool b) {         c3pv_ev_bool(b);  }
  void on_null() {               c3pv_ev_null();   }
  void on_undefined() {          c3pv_ev_undef();  }
  void on_error(const char*) {   c3pv_ev_error();  }
  void on_extra_integer(uint64_t v, int s) {  c3pv_ev_extra(v, s);  }
  void on_extra_tag(uint64_t v) {  c3pv_ev_tag(v);  }
};
}
#define C3PV_ENC(name, type, call)  void c3pv_enc_##name(type v) {  C3PVOut o;  cbor::encoder e(o);  e.call(v);  }
extern "C" {
  C3PV_ENC(u8,  uint8_t,  write_int)
  C3PV_ENC(u16, uint16_t, write_int)
  C3PV_ENC(u32, uint32_t, write_int)
  C3PV_ENC(u64, uint64_t, write_int)
  C3PV_ENC(i8,  int8_t,   write_int)
  C3PV_ENC(i16, int16_t,  write_int)
  C3PV_ENC(i32, int32_t,  write_int)
  C3PV_ENC(i64, int64_t,  write_int)
  C3PV_ENC(tag, uint32_t, write_tag)
  C3PV_ENC(arr, uint32_t, write_array)
  C3PV_ENC(map, uint32_t, write_map)
  C3PV_ENC(bool, bool,    write_bool)
  C3PV_ENC(f32, float,    write_float)
  C3PV_ENC(f64, double,   write_double)
  C3PV_ENC(special, uint32_t, write_special)
  void c3pv_enc_bytes(const uint8_t* p, uint32_t n) {  C3PVOut o;  cbor::encoder e(o);  e.write_bytes(p, n);   }
  void c3pv_enc_strn(const char* p, uint32_t n) {      C3PVOut o;  cbor::encoder e(o);  e.write_string(p, n);  }
  void c3pv_enc_str(const char* p) {                   C3PVOut o;  cbor::encoder e(o);  e.write_string(p);     }
  int8_t c3pv_enc_au16(const uint16_t* p, uint32_t n) {  C3PVOut o;  cbor::encoder e(o);  return e.write_typed_array(p, n);  }
  int8_t c3pv_enc_au32(const uint32_t* p, uint32_t n) {  C3PVOut o;  cbor::encoder e(o);  return e.write_typed_array(p, n);  }
  int8_t c3pv_enc_au64(const uint64_t* p, uint32_t n) {  C3PVOut o;  cbor::encoder e(o);  return e.write_typed_array(p, n);  }
  int8_t c3pv_enc_ai16(const int16_t* p, uint32_t n) {   C3PVOut o;  cbor::encoder e(o);  return e.write_typed_array(p, n);  }
  int8_t c3pv_enc_ai32(const int32_t* p, uint32_t n) {   C3PVOut o;  cbor::encoder e(o);  return e.write_typed_array(p, n);  }
  int8_t c3pv_enc_ai64(const int64_t* p, uint32_t n) {   C3PVOut o;  cbor::encoder e(o);  return e.write_typed_array(p, n);  }
  int8_t c3pv_enc_af32(const float* p, uint32_t n) {     C3PVOut o;  cbor::encoder e(o);  return e.write_typed_array(p, n);  }
  int8_t c3pv_enc_af64(const double* p, uint32_t n) {    C3PVOut o;  cbor::encoder e(o);  return e.write_typed_array(p, n);  }
  bool c3pv_dec(void* data, int size) {
    cbor::input_static in(data, size);  C3PVListener l;  cbor::decoder d(in, l);  d.run();  return d.failed();
  }
  bool c3pv_in_has(void* data, int size, int n) {          cbor::input_static in(data, size);  return in.has_bytes(n);  }
}

// StringBuilder: every public call with resolved overloads, and plain C versions of the libc text routines it uses.
#include <new>
#include "StringBuilder.h"
#define SB(p) ((StringBuilder*) (p))
extern "C" {
  void c3pv_sb_init(void* p) {  new (p) StringBuilder();  }
  void c3pv_sb_init_buf(void* p, uint8_t* b, int n) {  new (p) StringBuilder(b, n);  }
  void c3pv_sb_init_str(void* p, const char* b) {      new (p) StringBuilder(b);     }
  void c3pv_sb_fini(void* p) {  SB(p)->~StringBuilder();  }
  void c3pv_sb_concat(void* p, uint8_t* b, int n) {    SB(p)->concat(b, n);   }
  void c3pv_sb_prepend(void* p, uint8_t* b, int n) {   SB(p)->prepend(b, n);  }
  void c3pv_sb_concat_str(void* p, const char* b) {    SB(p)->concat(b);      }
  void c3pv_sb_prepend_str(void* p, const char* b) {   SB(p)->prepend(b);     }
  void c3pv_sb_concat_chr(void* p, char c) {           SB(p)->concat(c);      }
  void c3pv_sb_concat_u8(void* p, uint8_t c) {         SB(p)->concat(c);      }
  void c3pv_sb_concat_bool(void* p, bool c) {          SB(p)->concat(c);      }
  void c3pv_sb_concat_sb(void* p, void* q) {           SB(p)->concat(SB(q));  }
  void c3pv_sb_handoff(void* p, void* q) {             SB(p)->concatHandoff(SB(q));   }
  void c3pv_sb_handoff_limit(void* p, void* q, unsigned int n) {  SB(p)->concatHandoffLimit(SB(q), n);  }
  int  c3pv_sb_handoff_pos(void* p, void* q, unsigned int i, unsigned int n) {  return SB(p)->concatHandoffPositions(SB(q), i, n);  }
  void c3pv_sb_prepend_handoff(void* p, void* q) {     SB(p)->prependHandoff(SB(q));  }
  void c3pv_sb_limit(void* p, void* q, unsigned int n) {  SB(p)->concatLimit(SB(q), n);  }
  void c3pv_sb_handoff_buf(void* p, uint8_t* b, int n) {  SB(p)->concatHandoff(b, n);   }
  int  c3pv_sb_copy(void* p, uint8_t* b, uint32_t n, uint32_t o) {  return SB(p)->copyToBuffer(b, n, o);  }
  void c3pv_sb_cull2(void* p, int o, int n) {          SB(p)->cull(o, n);     }
  void c3pv_sb_cull(void* p, int n) {                  SB(p)->cull(n);        }
  void c3pv_sb_clear(void* p) {                        SB(p)->clear();        }
  void c3pv_sb_upper(void* p) {                        SB(p)->toUpper();      }
  void c3pv_sb_lower(void* p) {                        SB(p)->toLower();      }
  uint8_t* c3pv_sb_string(void* p) {                   return SB(p)->string();     }
  int  c3pv_sb_length(void* p) {                       return SB(p)->length();     }
  int  c3pv_sb_maxfrag(void* p) {                      return SB(p)->maximumFragmentLength();  }
  bool c3pv_sb_empty(void* p, bool strict) {           return SB(p)->isEmpty(strict);  }
  uint8_t c3pv_sb_byte(void* p, int n) {               return SB(p)->byteAt(n);    }
  int  c3pv_sb_chunk(void* p, int n) {                 return SB(p)->chunk(n);     }
  int  c3pv_sb_split(void* p, const char* s) {         return SB(p)->split(s);     }
  int  c3pv_sb_implode(void* p, const char* s) {       return SB(p)->implode(s);   }
  int  c3pv_sb_count(void* p) {                        return SB(p)->count();      }
  char* c3pv_sb_pos(void* p, int i) {                  return SB(p)->position(i);  }
  uint8_t* c3pv_sb_posn(void* p, int i, int* n) {      return SB(p)->position(i, n);  }
  char* c3pv_sb_pos_trim(void* p, int i) {             return SB(p)->position_trimmed(i);  }
  int  c3pv_sb_pos_int(void* p, int i) {               return SB(p)->position_as_int(i);     }
  uint64_t c3pv_sb_pos_u64(void* p, int i) {           return SB(p)->position_as_uint64(i);  }
  bool c3pv_sb_drop(void* p, unsigned int i) {         return SB(p)->drop_position(i);       }
  int  c3pv_sb_locate(void* p, const uint8_t* b, int n, int o) {  return SB(p)->locate(b, n, o);  }
  int  c3pv_sb_locate_str(void* p, const char* b, int o) {  return SB(p)->locate(b, o);  }
  bool c3pv_sb_contains_chr(void* p, char c) {         return SB(p)->contains(c);  }
  bool c3pv_sb_contains_str(void* p, const char* c) {  return SB(p)->contains(c);  }
  int  c3pv_sb_cmp(void* p, uint8_t* b, int n) {       return SB(p)->cmpBinString(b, n);  }
  int  c3pv_sb_replace(void* p, const char* a, const char* b) {  return SB(p)->replace(a, b);  }
  int  c3pv_sb_memcost(void* p, bool deep) {           return SB(p)->memoryCost(deep);  }
  char* c3pv_sb_strcasestr(const char* a, const char* b) {  return StringBuilder::strcasestr(a, b);  }
  int  c3pv_sb_strcasecmp(const char* a, const char* b) {   return StringBuilder::strcasecmp(a, b);  }
  char* c3pv_sb_deepcopy(const char* a, unsigned int n) {   return StringBuilder::deep_copy(a, n);   }

  int c3pv_libc_toupper(int c) {  return ((c >= 'a') & (c <= 'z')) ? c - 32 : c;  }
  int c3pv_libc_tolower(int c) {  return ((c >= 'A') & (c <= 'Z')) ? c + 32 : c;  }
  int c3pv_libc_isspace(int c) {  return (c == 32) | ((c >= 9) & (c <= 13));       }
  int c3pv_libc_strcmp(const char* a, const char* b) {  while (*a && (*a == *b)) {  a++;  b++;  }  return *(const uint8_t*) a - *(const uint8_t*) b;  }
  int c3pv_libc_strncmp(const char* a, const char* b, uint32_t n) {
    while (n && *a && (*a == *b)) {  a++;  b++;  n--;  }
    return n ? (*(const uint8_t*) a - *(const uint8_t*) b) : 0;
  }
  static int c3pv_low(uint8_t c) {  return ((c >= 'A') && (c <= 'Z')) ? (c + 32) : c;  }
  int c3pv_libc_strcasecmp(const char* a, const char* b) {
    while (*a && (c3pv_low(*a) == c3pv_low(*b))) {  a++;  b++;  }
    return c3pv_low(*a) - c3pv_low(*b);
  }
  int c3pv_libc_strncasecmp(const char* a, const char* b, uint32_t n) {
    while (n && *a && (c3pv_low(*a) == c3pv_low(*b))) {  a++;  b++;  n--;  }
    return n ? (c3pv_low(*a) - c3pv_low(*b)) : 0;
  }
  char* c3pv_libc_strchr(const char* s, int c) {
    while (*s != (char) c) {  if (0 == *s) {  return nullptr;  }  s++;  }
    return (char*) s;
  }
  static char* c3pv_tok_save = nullptr;
  char* c3pv_libc_strtok(char* s, const char* d) {
    if (nullptr == s) {  s = c3pv_tok_save;  }
    if (nullptr == s) {  return nullptr;     }
    while (0 != *s) {
      bool hit = false;
      for (const char* q = d; *q; q++) {  if (*q == *s) {  hit = true;  break;  }  }
      if (!hit) {  break;  }
      s++;
    }
    if (0 == *s) {  c3pv_tok_save = nullptr;  return nullptr;  }
    char* ret = s;
    while (0 != *s) {
      for (const char* q = d; *q; q++) {
        if (*q == *s) {  *s = 0;  c3pv_tok_save = s + 1;  return ret;  }
      }
      s++;
    }
    c3pv_tok_save = nullptr;
    return ret;
  }
}

// Buffer pipes: a sink with a given room that takes a given number of bytes and reports what it was offered.
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
#include "Pipes/BufferAccepter/LineCoDec/LineCoDec.h"
extern "C" void c3pv_sink(void* who, const uint8_t* b, int n);
namespace {
struct C3PVSink : public BufferAccepter {
  int32_t room;
  int32_t take;
  C3PVSink(int32_t r, int32_t t) : room(r), take(t) {};
  int8_t pushBuffer(StringBuilder* b) {
    const int n = b->length();
    c3pv_sink(this, b->string(), n);
    const int k = (take < n) ? take : n;
    if (0 < k) {  b->cull(k);  }
    return (k == n) ? 1 : ((k > 0) ? 0 : -1);
  }
  int32_t bufferAvailable() {  return room;  }
};
}
extern "C" {
  void c3pv_sink_init(void* p, int room, int take) {  new (p) C3PVSink(room, take);  }
  BufferAccepter* c3pv_sink_up(void* p) {             return (C3PVSink*) p;  }
  void c3pv_b64e_init(void* p, void* e) {      new (p) Base64Encoder((BufferAccepter*) e);  }
  void c3pv_b64d_init(void* p, void* e) {      new (p) Base64Decoder((BufferAccepter*) e);  }
  void c3pv_b64e_inlen(void* p, int n) {       ((Base64Encoder*) p)->inputLength(n);  }
  void c3pv_b64d_inlen(void* p, int n) {       ((Base64Decoder*) p)->inputLength(n);  }
  int8_t c3pv_b64e_push(void* p, void* b) {    return ((Base64Encoder*) p)->pushBuffer(SB(b));  }
  int8_t c3pv_b64d_push(void* p, void* b) {    return ((Base64Decoder*) p)->pushBuffer(SB(b));  }
  int c3pv_b64e_room(void* p) {                return ((Base64Encoder*) p)->bufferAvailable();  }
  int c3pv_b64d_room(void* p) {                return ((Base64Decoder*) p)->bufferAvailable();  }
  void c3pv_line_init(void* p, void* e) {      new (p) LineEndingCoDec((BufferAccepter*) e);    }
  int8_t c3pv_line_push(void* p, void* b) {    return ((LineEndingCoDec*) p)->pushBuffer(SB(b));  }
  int c3pv_line_room(void* p) {                return ((LineEndingCoDec*) p)->bufferAvailable();  }
  void c3pv_sbs_init(void* p, int n) {         new (p) StringBuilderSink(n);  }
  int8_t c3pv_sbs_push(void* p, void* b) {     return ((StringBuilderSink*) p)->pushBuffer(SB(b));  }
  int c3pv_sbs_room(void* p) {                 return ((StringBuilderSink*) p)->bufferAvailable();  }
  void* c3pv_sbs_sb(void* p) {                 return (StringBuilder*) (StringBuilderSink*) p;  }
  void c3pv_fork_init(void* p, void* l, void* r) {  new (p) BufferAccepterFork((BufferAccepter*) l, (BufferAccepter*) r);  }
  int8_t c3pv_fork_push(void* p, void* b) {    return ((BufferAccepterFork*) p)->pushBuffer(SB(b));  }
  int c3pv_fork_room(void* p) {                return ((BufferAccepterFork*) p)->bufferAvailable();  }
}

// CBOR input and output adapters.
extern "C" {
  void c3pv_os_init(void* p, uint32_t cap, uint8_t* b) {  new (p) cbor::output_static(cap, b);  }
  void c3pv_os_fini(void* p) {                            ((cbor::output_static*) p)->~output_static();  }
  int8_t c3pv_os_byte(void* p, uint8_t v) {               return ((cbor::output_static*) p)->put_byte(v);  }
  int8_t c3pv_os_bytes(void* p, const uint8_t* b, int n) {  return ((cbor::output_static*) p)->put_bytes(b, n);  }
  uint32_t c3pv_os_size(void* p) {                        return ((cbor::output_static*) p)->size();  }
  uint8_t* c3pv_os_data(void* p) {                        return ((cbor::output_static*) p)->data();  }
  void c3pv_ob_init(void* p, void* sb) {                  new (p) cbor::output_stringbuilder(SB(sb));  }
  int8_t c3pv_ob_byte(void* p, uint8_t v) {               return ((cbor::output_stringbuilder*) p)->put_byte(v);  }
  int8_t c3pv_ob_bytes(void* p, const uint8_t* b, int n) {  return ((cbor::output_stringbuilder*) p)->put_bytes(b, n);  }
  uint32_t c3pv_ob_size(void* p) {                        return ((cbor::output_stringbuilder*) p)->size();  }
  void c3pv_is_init(void* p, void* d, int n) {            new (p) cbor::input_static(d, n);  }
  void c3pv_ib_init(void* p, void* sb, bool a, bool b) {  new (p) cbor::input_stringbuilder(SB(sb), a, b);  }
  void c3pv_ib_fini(void* p) {                            ((cbor::input_stringbuilder*) p)->~input_stringbuilder();  }
  void* c3pv_sb_new() {                                   return new StringBuilder();  }
}
#define C3PV_IN(pre, cls)  \
  bool c3pv_##pre##_has(void* p, int n) {      return ((cbor::cls*) p)->has_bytes(n);   } \
  uint8_t c3pv_##pre##_byte(void* p) {         return ((cbor::cls*) p)->get_byte();     } \
  uint16_t c3pv_##pre##_short(void* p) {       return ((cbor::cls*) p)->get_short();    } \
  uint32_t c3pv_##pre##_int(void* p) {         return ((cbor::cls*) p)->get_int();      } \
  uint64_t c3pv_##pre##_long(void* p) {        return ((cbor::cls*) p)->get_long();     } \
  void c3pv_##pre##_float(void* p, float* f) {    *f = ((cbor::cls*) p)->get_float();   } \
  void c3pv_##pre##_double(void* p, double* f) {  *f = ((cbor::cls*) p)->get_double();  } \
  void c3pv_##pre##_bytes(void* p, void* to, int n) {  ((cbor::cls*) p)->get_bytes(to, n);  }
extern "C" {
  C3PV_IN(is, input_static)
  C3PV_IN(ib, input_stringbuilder)
}

// Flag containers and the sequencer.
#include "FlagContainer.h"
#include "AsyncSequencer.h"
#define C3PV_FLAG(n)  \
  void c3pv_fl##n##_init(void* p, uint##n##_t v) {       new (p) FlagContainer##n(v);  } \
  void c3pv_fl##n##_init0(void* p) {                     new (p) FlagContainer##n();   } \
  uint##n##_t c3pv_fl##n##_raw(void* p) {                return ((FlagContainer##n*) p)->raw;  } \
  bool c3pv_fl##n##_all(void* p, uint##n##_t f) {        return ((FlagContainer##n*) p)->all_set(f);  } \
  bool c3pv_fl##n##_value(void* p, uint##n##_t f) {      return ((FlagContainer##n*) p)->value(f);  } \
  void c3pv_fl##n##_flip(void* p, uint##n##_t f) {       ((FlagContainer##n*) p)->flip(f);  } \
  void c3pv_fl##n##_clear(void* p, uint##n##_t f) {      ((FlagContainer##n*) p)->clear(f);  } \
  void c3pv_fl##n##_set(void* p, uint##n##_t f) {        ((FlagContainer##n*) p)->set(f);  } \
  void c3pv_fl##n##_setx(void* p, uint##n##_t f, bool x) {  ((FlagContainer##n*) p)->set(f, x);  }
extern "C" {
  C3PV_FLAG(8)
  C3PV_FLAG(16)
  C3PV_FLAG(32)
  C3PV_FLAG(64)
  int c3pv_seq_dispatch(int idx);
  int c3pv_seq_ask(int idx);
  int c3pv_seq_stepsize() {  return sizeof(StepSequenceList);  }
  void c3pv_seq_step(void* arr, int idx, uint32_t flag, const char* label, uint32_t dep) {
    new (((StepSequenceList*) arr) + idx) StepSequenceList{flag, label, dep, [idx]() {  return c3pv_seq_dispatch(idx);  }, [idx]() {  return c3pv_seq_ask(idx);  }};
  }
  void c3pv_seq_init(void* p, void* arr, int n) {  new (p) AsyncSequencer((StepSequenceList*) arr, n);  }
  int8_t c3pv_seq_poll(void* p) {                  return ((AsyncSequencer*) p)->poll();  }
  void c3pv_seq_reset(void* p) {                   ((AsyncSequencer*) p)->resetSequencer();  }
  void c3pv_seq_resets(void* p, uint32_t m) {      ((AsyncSequencer*) p)->resetSteps(m);  }
  void c3pv_seq_request(void* p, uint32_t m) {     ((AsyncSequencer*) p)->requestSteps(m);  }
  void c3pv_seq_set(void* p, uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t e) {  ((AsyncSequencer*) p)->setState(a, b, c, d, e);  }
  void c3pv_seq_get(void* p, uint32_t* a, uint32_t* b, uint32_t* c, uint32_t* d, uint32_t* e) {  ((AsyncSequencer*) p)->getState(a, b, c, d, e);  }
  uint32_t c3pv_seq_failed(void* p, bool r) {      return ((AsyncSequencer*) p)->failed_steps(r);  }
  bool c3pv_seq_running(void* p) {                 return ((AsyncSequencer*) p)->steps_running();  }
  bool c3pv_seq_fulfilled(void* p) {               return ((AsyncSequencer*) p)->request_fulfilled();  }
  bool c3pv_seq_completed(void* p) {               return ((AsyncSequencer*) p)->request_completed();  }
  bool c3pv_seq_allrun(void* p) {                  return ((AsyncSequencer*) p)->all_steps_have_run();  }
  bool c3pv_seq_allrunm(void* p, uint32_t m) {     return ((AsyncSequencer*) p)->all_steps_have_run(m);  }
  bool c3pv_seq_allpass(void* p) {                 return ((AsyncSequencer*) p)->all_steps_have_passed();  }
  bool c3pv_seq_allpassm(void* p, uint32_t m) {    return ((AsyncSequencer*) p)->all_steps_have_passed(m);  }
  bool c3pv_seq_stillm(void* p, uint32_t m) {      return ((AsyncSequencer*) p)->all_steps_still_running(m);  }
  bool c3pv_seq_dispm(void* p, uint32_t m) {       return ((AsyncSequencer*) p)->all_steps_dispatched(m);  }
  const void* c3pv_seq_getstep(void* p, uint8_t i) {  return ((AsyncSequencer*) p)->getStep(i);  }
  uint32_t c3pv_seq_count(void* p) {               return ((AsyncSequencer*) p)->stepCount();  }
  uint32_t c3pv_seq_list(void* p, void* sb) {      return ((AsyncSequencer*) p)->stepList((StringBuilder*) sb);  }
}

// Time.
#include "AbstractPlatform.h"
#include "TimerTools/TimerTools.h"
#define C3PV_TMO(pre, cls)  \
  void c3pv_##pre##_init(void* p, unsigned long n) {    new (p) cls(n);  } \
  void c3pv_##pre##_trigger(void* p) {                  ((cls*) p)->trigger();  } \
  void c3pv_##pre##_reset(void* p) {                    ((cls*) p)->reset();    } \
  void c3pv_##pre##_resetp(void* p, unsigned long n) {  ((cls*) p)->reset(n);   } \
  void c3pv_##pre##_setp(void* p, unsigned long n) {    ((cls*) p)->period(n);  } \
  bool c3pv_##pre##_enabled(void* p) {                  return ((cls*) p)->enabled();    } \
  unsigned long c3pv_##pre##_period(void* p) {          return ((cls*) p)->period();     } \
  unsigned long c3pv_##pre##_remaining(void* p) {       return ((cls*) p)->remaining();  } \
  bool c3pv_##pre##_expired(void* p) {                  return ((cls*) p)->expired();    }
extern "C" {
  uint8_t  c3pv_delta8(uint8_t a, uint8_t b) {      return delta_assume_wrap(a, b);  }
  uint16_t c3pv_delta16(uint16_t a, uint16_t b) {   return delta_assume_wrap(a, b);  }
  uint32_t c3pv_delta32(uint32_t a, uint32_t b) {   return delta_assume_wrap(a, b);  }
  uint64_t c3pv_delta64(uint64_t a, uint64_t b) {   return delta_assume_wrap(a, b);  }
  unsigned long c3pv_ms_since(unsigned long m) {    return millis_since(m);  }
  unsigned long c3pv_us_since(unsigned long m) {    return micros_since(m);  }
  unsigned long c3pv_ms_until(unsigned long m) {    return millis_until(m);  }
  unsigned long c3pv_us_until(unsigned long m) {    return micros_until(m);  }
  C3PV_TMO(mst, MillisTimeout)
  C3PV_TMO(ust, MicrosTimeout)
  void c3pv_sw_init(void* p, uint32_t tag) {    new (p) StopWatch(tag);  }
  int  c3pv_sw_size() {                         return sizeof(StopWatch);  }
  void c3pv_sw_start(void* p) {                 ((StopWatch*) p)->markStart();  }
  bool c3pv_sw_stop(void* p) {                  return ((StopWatch*) p)->markStop();  }
  bool c3pv_sw_add(void* p, unsigned long a, unsigned long b) {  return ((StopWatch*) p)->addRuntime(a, b);  }
  void c3pv_sw_reset(void* p) {                 ((StopWatch*) p)->reset();  }
  uint32_t c3pv_sw_tag(void* p) {               return ((StopWatch*) p)->tag();         }
  uint32_t c3pv_sw_best(void* p) {              return ((StopWatch*) p)->bestTime();    }
  uint32_t c3pv_sw_last(void* p) {              return ((StopWatch*) p)->lastTime();    }
  uint32_t c3pv_sw_worst(void* p) {             return ((StopWatch*) p)->worstTime();   }
  uint32_t c3pv_sw_mean(void* p) {              return ((StopWatch*) p)->meanTime();    }
  uint32_t c3pv_sw_total(void* p) {             return ((StopWatch*) p)->totalTime();   }
  uint32_t c3pv_sw_execs(void* p) {             return ((StopWatch*) p)->executions();  }
}

// The scheduler.
#include "TimerTools/C3PScheduler.h"
extern "C" int c3pv_sched_run(void* who);
namespace {
struct C3PVSchedule : public C3PSchedule {
  C3PVSchedule(uint32_t p, int32_t r, bool e) : C3PSchedule("v", p, r, e) {};
  int8_t _execute() {
    const int a = c3pv_sched_run(this);
    if (a & 0x100) {  enabled(false);  }
    if (a & 0x200) {  enabled(true);   }
    if (a & 0x400) {  recurrence(2);   }
    if (a & 0x800) {  delay(5);        }
    if (a & 0x1000) { period(77);      }
    return (int8_t) a;
  }
  void _print_schedule(StringBuilder*) {};
};
}
extern "C" {
  int    c3pv_sch_size() {                      return sizeof(C3PVSchedule);  }
  void   c3pv_sch_init(void* p, uint32_t per, int32_t rec, bool en) {  new (p) C3PVSchedule(per, rec, en);  }
  int8_t c3pv_sch_execute(void* p) {            return ((C3PVSchedule*) p)->execute();  }
  void   c3pv_sch_delay(void* p) {              ((C3PVSchedule*) p)->delay();  }
  void   c3pv_sch_delayby(void* p, unsigned n) {  ((C3PVSchedule*) p)->delay(n);  }
  bool   c3pv_sch_again(void* p) {              return ((C3PVSchedule*) p)->willRunAgain();  }
  bool   c3pv_sch_valid(void* p) {              return ((C3PVSchedule*) p)->valid();         }
  bool   c3pv_sch_enabled(void* p) {            return ((C3PVSchedule*) p)->enabled();       }
  void   c3pv_sch_enable(void* p, bool x) {     ((C3PVSchedule*) p)->enabled(x);             }
  bool   c3pv_sch_executing(void* p) {          return ((C3PVSchedule*) p)->executingNow();  }
  int    c3pv_sch_recurrence(void* p) {         return ((C3PVSchedule*) p)->recurrence();    }
  unsigned c3pv_sch_period(void* p) {           return ((C3PVSchedule*) p)->period();        }
  unsigned c3pv_sch_last(void* p) {             return ((C3PVSchedule*) p)->lastExec();      }
  unsigned c3pv_sch_next(void* p) {             return ((C3PVSchedule*) p)->nextExec();      }
  unsigned c3pv_sch_runs(void* p) {             return ((C3PVSchedule*) p)->profiler.executions();  }
  void*  c3pv_scheduler() {                     return C3PScheduler::getInstance();  }
  int8_t c3pv_scr_add(void* p, void* s) {       return ((C3PScheduler*) p)->addSchedule((C3PVSchedule*) s);      }
  bool   c3pv_scr_has(void* p, void* s) {       return ((C3PScheduler*) p)->containsSchedule((C3PVSchedule*) s); }
  unsigned c3pv_scr_count(void* p) {            return ((C3PScheduler*) p)->scheduleCount();  }
  void*  c3pv_scr_get(void* p, unsigned i) {    return ((C3PScheduler*) p)->getScheduleByIndex(i);  }
  void   c3pv_scr_advance(void* p) {            ((C3PScheduler*) p)->advanceScheduler();  }
  void   c3pv_scr_service(void* p) {            ((C3PScheduler*) p)->serviceSchedules();  }
}
namespace {
struct C3PVPollable : public C3PPollable {
  PollResult poll() {  return (PollResult) c3pv_sched_run(this);  }
};
}
extern "C" {
  void   c3pv_pol_init(void* p) {               new (p) C3PVPollable();  }
  void   c3pv_spol_init(void* p, uint32_t per, int32_t rec, bool en, void* o) {  new (p) C3PScheduledPolling("v", per, rec, en, (C3PVPollable*) o);  }
  void   c3pv_slam_init(void* p, uint32_t per, int32_t rec, bool en, void* o) {  new (p) C3PScheduledLambda("v", per, rec, en, [o]() {  return (int8_t) c3pv_sched_run(o);  });  }
}

// Small helpers.
#define C3PV_STRICT(T, n)  \
  T c3pv_min_##n(T a, T b) {           return strict_min(a, b);  } \
  T c3pv_max_##n(T a, T b) {           return strict_max(a, b);  } \
  T c3pv_absd_##n(T a, T b) {          return strict_abs_delta(a, b);  } \
  T c3pv_bind_##n(T a, T b, T c) {     return strict_range_bind(a, b, c);  } \
  void c3pv_swap_##n(T* a, T* b) {     strict_swap(a, b);  }
extern "C" {
  C3PV_STRICT(uint8_t, u8)
  C3PV_STRICT(uint16_t, u16)
  C3PV_STRICT(uint32_t, u32)
  C3PV_STRICT(uint64_t, u64)
  C3PV_STRICT(int8_t, i8)
  C3PV_STRICT(int16_t, i16)
  C3PV_STRICT(int32_t, i32)
  C3PV_STRICT(int64_t, i64)
  uint64_t c3pv_s2t(const char* s) {   return stringToTimestamp(s);  }
  int  c3pv_ref_size() {               return sizeof(C3PRefCounter);  }
  void c3pv_ref_init(void* p, uint16_t n) {   new (p) C3PRefCounter(n);  }
  bool c3pv_ref_take(void* p) {        return ((C3PRefCounter*) p)->refTake();     }
  bool c3pv_ref_release(void* p) {     return ((C3PRefCounter*) p)->refRelease();  }
  uint16_t c3pv_ref_count(void* p) {   return ((C3PRefCounter*) p)->refCount();    }
  int8_t c3pv_rng_fill(void* who, uint8_t* to, unsigned n);
  int  c3pv_prng_size() {              return sizeof(C3P_pRNG);  }
  void c3pv_prng_init(void* p) {       new (p) C3P_pRNG();  }
  void c3pv_prng_seed(void* p, uint64_t s) {  ((C3P_pRNG*) p)->init(s);  }
  int8_t c3pv_prng_fill(void* p, uint8_t* to, unsigned n) {  return ((C3P_pRNG*) p)->fill(to, n);  }
}
namespace {
struct C3PVRandom : public C3PRandom {
  int8_t fill(uint8_t* to, const uint32_t n) {  return c3pv_rng_fill(this, to, n);  }
};
}
extern "C" {
  void c3pv_rng_init(void* p) {        new (p) C3PVRandom();  }
  bool     c3pv_rng_bool(void* p) {    return ((C3PRandom*) p)->randomBool();    }
  uint8_t  c3pv_rng_u8(void* p) {      return ((C3PRandom*) p)->randomUInt8();   }
  uint16_t c3pv_rng_u16(void* p) {     return ((C3PRandom*) p)->randomUInt16();  }
  uint32_t c3pv_rng_u32(void* p) {     return ((C3PRandom*) p)->randomUInt32();  }
  uint64_t c3pv_rng_u64(void* p) {     return ((C3PRandom*) p)->randomUInt64();  }
}

// The logger.
#include "C3PLogger.h"
extern "C" {
  int    c3pv_log_size() {                       return sizeof(C3PLogger);  }
  void   c3pv_log_init(void* p, uint8_t f, void* s) {  new (p) C3PLogger(f, (BufferAccepter*) s);  }
  void   c3pv_log_end(void* p) {                 ((C3PLogger*) p)->~C3PLogger();  }
  int8_t c3pv_log_print(void* p, uint8_t sev, const char* tag, void* msg) {  return ((C3PLogger*) p)->print(sev, tag, (StringBuilder*) msg);  }
  void   c3pv_log_fetch(void* p, void* sb) {     ((C3PLogger*) p)->fetchLog((StringBuilder*) sb);  }
  void   c3pv_log_sink(void* p, void* s) {       ((C3PLogger*) p)->setSink((BufferAccepter*) s);   }
  void   c3pv_log_setverb(void* p, uint8_t v) {  ((C3PLogger*) p)->verbosity(v);      }
  uint8_t c3pv_log_verb(void* p) {               return ((C3PLogger*) p)->verbosity();  }
  void   c3pv_log_setsev(void* p, bool x) {      ((C3PLogger*) p)->printSeverity(x);    }
}

// M2M headers and messages.
#include "M2MLink/M2MLink.h"
extern "C" {
  int  c3pv_mh_size() {                       return sizeof(M2MMsgHdr);  }
  void c3pv_mh_init(void* p) {                new (p) M2MMsgHdr();  }
  void c3pv_mh_make(void* p, uint8_t c, uint8_t n, uint8_t f, uint32_t i) {  new (p) M2MMsgHdr((M2MMsgCode) c, n, f, i);  }
  void c3pv_mh_copy(void* p, void* o) {       new (p) M2MMsgHdr((const M2MMsgHdr*) o);  }
  void c3pv_mh_set(void* p, uint8_t c, uint8_t f, uint8_t k, uint32_t n, uint32_t i) {
    M2MMsgHdr* h = (M2MMsgHdr*) p;
    h->msg_code = (M2MMsgCode) c;  h->flags = f;  h->chk_byte = k;  h->msg_len = n;  h->msg_id = i;
  }
  uint8_t  c3pv_mh_code(void* p) {            return (uint8_t) ((M2MMsgHdr*) p)->msg_code;  }
  uint8_t  c3pv_mh_flags(void* p) {           return ((M2MMsgHdr*) p)->flags;     }
  uint8_t  c3pv_mh_chk(void* p) {             return ((M2MMsgHdr*) p)->chk_byte;  }
  uint32_t c3pv_mh_len(void* p) {             return ((M2MMsgHdr*) p)->msg_len;   }
  uint32_t c3pv_mh_id(void* p) {              return ((M2MMsgHdr*) p)->msg_id;    }
  bool c3pv_mh_reply(void* p) {               return ((M2MMsgHdr*) p)->isReply();       }
  bool c3pv_mh_expects(void* p) {             return ((M2MMsgHdr*) p)->expectsReply();  }
  void c3pv_mh_setreply(void* p, bool x) {    ((M2MMsgHdr*) p)->isReply(x);       }
  void c3pv_mh_setexpects(void* p, bool x) {  ((M2MMsgHdr*) p)->expectsReply(x);  }
  void c3pv_mh_wipe(void* p) {                ((M2MMsgHdr*) p)->wipe();  }
  bool c3pv_mh_valid(void* p) {               return ((M2MMsgHdr*) p)->isValid();  }
  bool c3pv_mh_sync(void* p) {                return ((M2MMsgHdr*) p)->isSync();   }
  bool c3pv_mh_ser(void* p, void* sb) {       return ((M2MMsgHdr*) p)->serialize((StringBuilder*) sb);  }
  bool c3pv_mh_setpl(void* p, uint32_t n) {   return ((M2MMsgHdr*) p)->set_payload_length(n);  }
  int  c3pv_mh_hlen(void* p) {                return ((M2MMsgHdr*) p)->header_length();   }
  int  c3pv_mh_plen(void* p) {                return ((M2MMsgHdr*) p)->payload_length();  }
  int  c3pv_mh_tlen(void* p) {                return ((M2MMsgHdr*) p)->total_length();    }
  void c3pv_mh_rebuild(void* p) {             ((M2MMsgHdr*) p)->rebuild_checksum();  }
  int8_t c3pv_mh_parse(void* p, void* sb) {   return M2MMsg::attempt_header_parse((M2MMsgHdr*) p, (StringBuilder*) sb);  }
  int  c3pv_mm_size() {                       return sizeof(M2MMsg);  }
  void c3pv_mm_init(void* p, void* h, uint8_t op) {  new (p) M2MMsg((M2MMsgHdr*) h, (BusOpcode) op);  }
  void c3pv_mm_end(void* p) {                 ((M2MMsg*) p)->~M2MMsg();  }
  void c3pv_mm_delete(void* p) {              delete (M2MMsg*) p;  }
  void* c3pv_mm_unser(void* sb) {             return M2MMsg::unserialize((StringBuilder*) sb);  }
  int  c3pv_mm_acc(void* p, void* sb) {       return ((M2MMsg*) p)->accumulate((StringBuilder*) sb);  }
  int  c3pv_mm_ser(void* p, void* sb) {       return ((M2MMsg*) p)->serialize((StringBuilder*) sb);   }
  int  c3pv_mm_setpl(void* p, void* kvp) {    return ((M2MMsg*) p)->setPayload((KeyValuePair*) kvp);  }
  int  c3pv_mm_getpl(void* p, void** kvp) {   return ((M2MMsg*) p)->getPayload((KeyValuePair**) kvp); }
  int  c3pv_mm_reply(void* p, void* kvp, bool x) {  return ((M2MMsg*) p)->reply((KeyValuePair*) kvp, x);  }
  int  c3pv_mm_enc(void* p, uint8_t e) {      return ((M2MMsg*) p)->encoding((TCode) e);  }
  bool c3pv_mm_complete(void* p) {            return ((M2MMsg*) p)->rxComplete();    }
  bool c3pv_mm_valid(void* p) {               return ((M2MMsg*) p)->isValidMsg();    }
  bool c3pv_mm_isreply(void* p) {             return ((M2MMsg*) p)->isReply();       }
  bool c3pv_mm_expects(void* p) {             return ((M2MMsg*) p)->expectsReply();  }
  uint32_t c3pv_mm_id(void* p) {              return ((M2MMsg*) p)->uniqueId();      }
  uint8_t c3pv_mm_code(void* p) {             return (uint8_t) ((M2MMsg*) p)->msgCode();    }
  uint8_t c3pv_mm_dir(void* p) {              return (uint8_t) ((M2MMsg*) p)->direction();  }
  bool c3pv_mm_retry(void* p) {               return ((M2MMsg*) p)->attemptRetry();  }
  void c3pv_mm_wipe(void* p) {                ((M2MMsg*) p)->wipe();  }
  bool c3pv_mm_sent(void* p) {                return ((M2MMsg*) p)->wasSent();  }
  void c3pv_mm_marksent(void* p) {            ((M2MMsg*) p)->markSent();        }
  bool c3pv_mm_ackd(void* p) {                return ((M2MMsg*) p)->wasACKd();  }
  void c3pv_mm_markackd(void* p) {            ((M2MMsg*) p)->markACKd();        }
  bool c3pv_m2m_codevalid(uint8_t c) {        return M2MLink::msgCodeValid((M2MMsgCode) c);  }
}
extern "C" int8_t c3pv_kvp_ser(void* who, void* sb, uint8_t fmt);
namespace {
struct C3PVPayload : public KeyValuePair {
  C3PVPayload() : KeyValuePair(TCode::UINT8) {};
  int8_t serialize(StringBuilder* sb, TCode fmt) {  return c3pv_kvp_ser(this, sb, (uint8_t) fmt);  }
};
}
extern "C" {
  int  c3pv_kvp_size() {          return sizeof(C3PVPayload);  }
  void c3pv_kvp_init(void* p) {   new (p) C3PVPayload();       }
}

// Enum tables and state machines.
#include "FiniteStateMachine.h"
enum class C3PVEnum : uint8_t { ZERO = 0, MAX = 255 };
extern "C" int8_t c3pv_fsm_enter(void* who, uint8_t s);
namespace {
struct C3PVMachine : public StateMachine<C3PVEnum> {
  C3PVMachine(const EnumDefList<C3PVEnum>* l, C3PVEnum s, unsigned d) : StateMachine<C3PVEnum>("v", l, s, d) {};
  int8_t _fsm_poll() {  return 0;  }
  int8_t _fsm_set_position(C3PVEnum s) {  return c3pv_fsm_enter(this, (uint8_t) s);  }
  int8_t set(int n, int a, int b, int c, int d) {  return _fsm_set_route(n, a, b, c, d);  }
  int8_t app(int n, int a, int b, int c, int d) {  return _fsm_append_route(n, a, b, c, d);  }
  int8_t aps(uint8_t a) {       return _fsm_append_state((C3PVEnum) a);   }
  int8_t pre(uint8_t a) {       return _fsm_prepend_state((C3PVEnum) a);  }
  int8_t adv() {                return _fsm_advance();    }
  void   rst(uint8_t a) {       _fsm_reset((C3PVEnum) a);   }
  bool   planned(uint8_t a) {   return _fsm_state_planned((C3PVEnum) a);  }
  bool   isnext(uint8_t a) {    return _fsm_is_next_pos((C3PVEnum) a);    }
  uint8_t next() {              return (uint8_t) _fsm_pos_next();  }
  bool   stable() {             return _fsm_is_stable();  }
  bool   waiting() {            return _fsm_is_waiting(); }
  void   lock(uint32_t x) {     _fsm_lockout(x);   }
  void   slow(uint32_t x) {     _fsm_slowdown(x);  }
};
}
extern "C" {
  int   c3pv_ed_size() {             return sizeof(EnumDef<C3PVEnum>);  }
  void  c3pv_ed_init(void* p, uint8_t v, const char* s, uint8_t f, uint8_t c) {  new (p) EnumDef<C3PVEnum>((C3PVEnum) v, s, f, c);  }
  void  c3pv_el_init(void* p, void* d, uint32_t n) {  new (p) EnumDefList<C3PVEnum>((EnumDef<C3PVEnum>*) d, n, "v");  }
  bool  c3pv_el_valid(void* p, uint8_t e) {         return ((EnumDefList<C3PVEnum>*) p)->enumValid((C3PVEnum) e);  }
  const char* c3pv_el_str(void* p, uint8_t e) {     return ((EnumDefList<C3PVEnum>*) p)->enumStr((C3PVEnum) e);    }
  uint8_t c3pv_el_extra(void* p, uint8_t e) {       return ((EnumDefList<C3PVEnum>*) p)->enumExtra((C3PVEnum) e);  }
  const void* c3pv_el_def(void* p, uint8_t e) {     return ((EnumDefList<C3PVEnum>*) p)->enumDef((C3PVEnum) e);    }
  const void* c3pv_el_bystr(void* p, const char* s) {   return ((EnumDefList<C3PVEnum>*) p)->getEnumDefByStr(s);   }
  uint8_t c3pv_el_enum(void* p, const char* s, int8_t* f) {  return (uint8_t) ((EnumDefList<C3PVEnum>*) p)->getEnumByStr(s, f);  }
  uint32_t c3pv_el_count(void* p) {                 return ((EnumDefList<C3PVEnum>*) p)->exportCount();  }
  void  c3pv_el_keys(void* p, void* sb) {           ((EnumDefList<C3PVEnum>*) p)->exportKeys((StringBuilder*) sb);  }
  int   c3pv_fsm_size() {            return sizeof(C3PVMachine);  }
  void  c3pv_fsm_init(void* p, void* l, uint8_t s, unsigned d) {  new (p) C3PVMachine((EnumDefList<C3PVEnum>*) l, (C3PVEnum) s, d);  }
  void  c3pv_fsm_end(void* p) {      ((C3PVMachine*) p)->~C3PVMachine();  }
  uint8_t c3pv_fsm_cur(void* p) {    return (uint8_t) ((C3PVMachine*) p)->currentState();  }
  uint8_t c3pv_fsm_prior(void* p) {  return (uint8_t) ((C3PVMachine*) p)->priorState();    }
  int8_t c3pv_fsm_set(void* p, int n, int a, int b, int c, int d) {  return ((C3PVMachine*) p)->set(n, a, b, c, d);  }
  int8_t c3pv_fsm_app(void* p, int n, int a, int b, int c, int d) {  return ((C3PVMachine*) p)->app(n, a, b, c, d);  }
  int8_t c3pv_fsm_aps(void* p, uint8_t a) {   return ((C3PVMachine*) p)->aps(a);  }
  int8_t c3pv_fsm_pre(void* p, uint8_t a) {   return ((C3PVMachine*) p)->pre(a);  }
  int8_t c3pv_fsm_adv(void* p) {              return ((C3PVMachine*) p)->adv();   }
  void  c3pv_fsm_rst(void* p, uint8_t a) {    ((C3PVMachine*) p)->rst(a);         }
  bool  c3pv_fsm_planned(void* p, uint8_t a) {  return ((C3PVMachine*) p)->planned(a);  }
  bool  c3pv_fsm_isnext(void* p, uint8_t a) {   return ((C3PVMachine*) p)->isnext(a);   }
  uint8_t c3pv_fsm_next(void* p) {    return ((C3PVMachine*) p)->next();    }
  bool  c3pv_fsm_stable(void* p) {    return ((C3PVMachine*) p)->stable();  }
  bool  c3pv_fsm_waiting(void* p) {   return ((C3PVMachine*) p)->waiting();  }
  void  c3pv_fsm_lock(void* p, uint32_t x) {  ((C3PVMachine*) p)->lock(x);  }
  void  c3pv_fsm_slow(void* p, uint32_t x) {  ((C3PVMachine*) p)->slow(x);  }
}

// Links.
extern "C" void c3pv_lnk_cb(M2MLink* l);
extern "C" void c3pv_msg_cb(uint32_t tag, M2MMsg* m);
extern "C" void c3pv_svc_cb(void* who, uint32_t tag, M2MMsg* m);
namespace {
struct C3PVService : public M2MService {
  C3PVService(M2MLink* l) : M2MService("v", l) {};
  int8_t _handle_msg(uint32_t tag, M2MMsg* m) {  c3pv_svc_cb(this, tag, m);  return 0;  }
};
}
extern "C" {
  void c3pv_kvp_delete(void* p) {             delete (KeyValuePair*) p;  }
  void* c3pv_kvp_new() {                      return new C3PVPayload();  }
  int  c3pv_ln_size() {                       return sizeof(M2MLink);   }
  void c3pv_ln_init(void* p, uint32_t timeout, uint32_t keepalive, uint32_t mtu, uint32_t flags) {
    M2MLinkOpts o(timeout, keepalive, mtu, TCode::CBOR, flags);
    new (p) M2MLink(&o);
  }
  void c3pv_ln_end(void* p) {                 ((M2MLink*) p)->~M2MLink();  }
  void c3pv_ln_eff(void* p, void* s) {        ((M2MLink*) p)->setEfferant((BufferAccepter*) s);  }
  void c3pv_ln_cb(void* p) {                  ((M2MLink*) p)->setCallback((M2MLinkCB) c3pv_lnk_cb);  ((M2MLink*) p)->setCallback((M2MMsgCB) c3pv_msg_cb);  }
  int8_t c3pv_ln_svc(void* p, void* s) {      return ((M2MLink*) p)->setCallback((M2MService*) (C3PVService*) s);  }
  int8_t c3pv_ln_push(void* p, void* sb) {    return ((M2MLink*) p)->pushBuffer((StringBuilder*) sb);  }
  int8_t c3pv_ln_poll(void* p, void* sb) {    return ((M2MLink*) p)->poll((StringBuilder*) sb);  }
  int8_t c3pv_ln_hangup(void* p, bool g) {    return ((M2MLink*) p)->hangup(g);  }
  int8_t c3pv_ln_reset(void* p) {             return ((M2MLink*) p)->reset();    }
  int8_t c3pv_ln_log(void* p, void* sb, bool r) {  return ((M2MLink*) p)->writeRemoteLog((StringBuilder*) sb, r);  }
  bool c3pv_ln_idle(void* p) {                return ((M2MLink*) p)->linkIdle();     }
  bool c3pv_ln_connected(void* p) {           return ((M2MLink*) p)->isConnected();  }
  int  c3pv_ln_send(void* p, void* k, bool r) {  return ((M2MLink*) p)->send((KeyValuePair*) k, r);  }
  uint8_t c3pv_ln_state(void* p) {            return (uint8_t) ((M2MLink*) p)->currentState();  }
  uint16_t c3pv_ln_fails(void* p) {           return ((M2MLink*) p)->replyTimeouts();  }
  void c3pv_ln_verb(void* p, uint8_t x) {     ((M2MLink*) p)->verbosity(x);      }
  int  c3pv_ln_avail(void* p) {               return ((M2MLink*) p)->bufferAvailable();  }
  int  c3pv_sv_size() {                       return sizeof(C3PVService);  }
  void c3pv_sv_init(void* p, void* l) {       new (p) C3PVService((M2MLink*) l);  }
  void c3pv_sv_end(void* p) {                 ((C3PVService*) p)->~C3PVService();  }
}
#include "Identity/Identity.h"
namespace {
struct C3PVIdent : public Identity {
  C3PVIdent() : Identity("v", IdentFormat::SERIAL_NUM) {};
  void toString(StringBuilder* o) {  o->concat('v');  }
  int  serialize(uint8_t* b, uint16_t len) {  return 0;  }
};
}
extern "C" {
  void* c3pv_ident_new() {                    return (Identity*) new C3PVIdent();  }
  void c3pv_ident_delete(void* p) {           delete (Identity*) p;  }
  void c3pv_ln_local(void* p, void* id) {     ((M2MLink*) p)->localIdentity((Identity*) id);  }
  void* c3pv_ln_remote(void* p) {             return ((M2MLink*) p)->remoteIdentity();  }
}

// Values.
#include "TimerTools/TimerTools.h"
#define C3PV_V(N, T) \
  void* c3pv_v_new_##N(T x) {  return new C3PValue(x);  } \
  void* c3pv_k_new_##N(const char* k, T x) {  return new KeyValuePair(k, x);  } \
  int8_t c3pv_v_set_##N(void* v, T x) {  return ((C3PValue*) v)->set(x);  } \
  int8_t c3pv_v_get_##N(void* v, T* x) {  return ((C3PValue*) v)->get_as(x);  }
#define C3PV_VP(N, T) \
  void* c3pv_v_new_##N(T* x) {  return new C3PValue(x);  } \
  void* c3pv_k_new_##N(const char* k, T* x) {  return new KeyValuePair(k, x);  } \
  int8_t c3pv_v_set_##N(void* v, T* x) {  return ((C3PValue*) v)->set(x);  } \
  int8_t c3pv_v_get_##N(void* v, T** x) {  return ((C3PValue*) v)->get_as(x);  }
extern "C" {
  C3PV_V(u8, uint8_t) C3PV_V(u16, uint16_t) C3PV_V(u32, uint32_t) C3PV_V(u64, uint64_t)
  C3PV_V(i8, int8_t) C3PV_V(i16, int16_t) C3PV_V(i32, int32_t) C3PV_V(i64, int64_t)
  C3PV_V(b, bool) C3PV_V(f, float) C3PV_V(d, double)
  C3PV_VP(sb, StringBuilder) C3PV_VP(kvp, KeyValuePair) C3PV_VP(sw, StopWatch) C3PV_VP(ident, Identity)
  void* c3pv_v_new_cs(const char* x) {  return new C3PValue(x);  }
  void* c3pv_v_new_s(char* x) {         return new C3PValue(x);  }
  void* c3pv_k_new_cs(const char* k, const char* x) {  return new KeyValuePair(k, x);  }
  void* c3pv_k_new_s(const char* k, char* x) {         return new KeyValuePair(k, x);  }
  void* c3pv_k_new_own(char* k, uint8_t x) {           return new KeyValuePair(k, x);  }
  int8_t c3pv_v_set_cs(void* v, const char* x) {       return ((C3PValue*) v)->set(x);  }
  int8_t c3pv_v_get_cs(void* v, const char** x) {      return ((C3PValue*) v)->get_as(x);  }
  void* c3pv_v_new_bin(uint8_t* x, uint32_t n) {                  return new C3PValue(x, n);  }
  void* c3pv_k_new_bin(const char* k, uint8_t* x, uint32_t n) {   return new KeyValuePair(k, x, n);  }
  int8_t c3pv_v_get_bin(void* v, uint8_t** x, uint32_t* n) {      return ((C3PValue*) v)->get_as(x, n);  }
  int8_t c3pv_v_set_bin(void* v, uint8_t* x, uint32_t n) {        return ((C3PValue*) v)->set(x, n);  }
  int8_t c3pv_v_setv(void* v, void* w) {      return ((C3PValue*) v)->set((C3PValue*) w);  }
  bool   c3pv_v_bool(void* v) {               return ((C3PValue*) v)->get_as_bool();  }
  uint32_t c3pv_v_uint(void* v, int8_t* ok) { return ((C3PValue*) v)->get_as_uint(ok);  }
  int32_t c3pv_v_int(void* v, int8_t* ok) {   return ((C3PValue*) v)->get_as_int(ok);  }
  uint64_t c3pv_v_uint64(void* v, int8_t* ok) {  return ((C3PValue*) v)->get_as_uint64(ok);  }
  int64_t c3pv_v_int64(void* v, int8_t* ok) {    return ((C3PValue*) v)->get_as_int64(ok);  }
  uint8_t c3pv_v_tcode(void* v) {             return (uint8_t) ((C3PValue*) v)->tcode();  }
  uint32_t c3pv_v_length(void* v) {           return ((C3PValue*) v)->length();  }
  bool   c3pv_v_haskey(void* v) {             return ((C3PValue*) v)->has_key();  }
  bool   c3pv_v_memerr(void* v) {             return ((C3PValue*) v)->memError();  }
  uint16_t c3pv_v_trace(void* v) {            return ((C3PValue*) v)->trace();  }
  void   c3pv_v_mark(void* v) {               ((C3PValue*) v)->markDirty();  }
  bool   c3pv_v_dirty(void* v, uint16_t* x) { return ((C3PValue*) v)->dirty(x);  }
  void   c3pv_v_reap(void* v, bool x) {       ((C3PValue*) v)->reapValue(x);  }
  bool   c3pv_v_reaps(void* v) {              return ((C3PValue*) v)->reapValue();  }
  void   c3pv_v_reapc(void* v, bool x) {      ((C3PValue*) v)->reapContainer(x);  }
  void   c3pv_v_delete(void* v) {             delete (C3PValue*) v;  }
  uint32_t c3pv_v_count(void* v) {            return ((C3PValue*) v)->count();  }
  void*  c3pv_v_idx(void* v, uint32_t n) {    return ((C3PValue*) v)->valueWithIdx(n);  }
  int8_t c3pv_v_idxget(void* v, uint32_t n, void* x) {  return ((C3PValue*) v)->valueWithIdx(n, x);  }
  void*  c3pv_v_next(void* v) {               return ((C3PValue*) v)->nextValue();  }
  void*  c3pv_v_link(void* v, void* w, bool r) {     return ((C3PValue*) v)->link((C3PValue*) w, r);  }
  int8_t c3pv_v_unlink(void* v, void* w, bool r) {   return ((C3PValue*) v)->unlink((C3PValue*) w, r);  }
  int8_t c3pv_v_drop(void* v, void** prior, void* w, bool d) {  return ((C3PValue*) v)->drop((C3PValue**) prior, (C3PValue*) w, d);  }
  char*  c3pv_k_key(void* v) {                return ((KeyValuePair*) v)->getKey();  }
  int8_t c3pv_k_setc(void* v, const char* k) {  return ((KeyValuePair*) v)->setKey(k);  }
  int8_t c3pv_k_sets(void* v, char* k) {      return ((KeyValuePair*) v)->setKey(k);  }
  void*  c3pv_k_with(void* v, const char* k) {  return ((KeyValuePair*) v)->valueWithKey(k);  }
  int8_t c3pv_k_withget(void* v, const char* k, void* x) {  return ((KeyValuePair*) v)->valueWithKey(k, x);  }
  int    c3pv_k_collect(void* v, void* sb) {  return ((KeyValuePair*) v)->collectKeys((StringBuilder*) sb);  }
  void*  c3pv_sb_heap() {                     return new StringBuilder();  }
  void   c3pv_sb_heap_del(void* p) {          delete (StringBuilder*) p;  }
  void   c3pv_sw_heap_del(void* p) {          delete (StopWatch*) p;  }
  void*  c3pv_libc_malloc(uint32_t n) {       return malloc(n);  }
  void   c3pv_libc_free(void* p) {            free(p);  }
  void*  c3pv_sw_heap() {                     return new StopWatch(3);  }
}

// Containers, one call at a time.
typedef C3PVerifElem* C3PVE;
extern "C" {
  typedef RingBuffer<uint32_t> C3PVRing;
  void* c3pv_rg_new(uint32_t n) {                     return new C3PVRing(n);                      }
  void  c3pv_rg_delete(void* p) {                     delete (C3PVRing*) p;                        }
  int   c3pv_rg_insert(void* p, uint32_t x) {         return ((C3PVRing*) p)->insert(x);           }
  int   c3pv_rg_inserts(void* p, uint32_t* x, uint32_t n) {  return ((C3PVRing*) p)->insert(x, n); }
  int   c3pv_rg_absent(void* p, uint32_t x) {         return ((C3PVRing*) p)->insertIfAbsent(x);   }
  uint32_t c3pv_rg_get(void* p) {                     return ((C3PVRing*) p)->get();               }
  int   c3pv_rg_gets(void* p, uint32_t* x, uint32_t n) {  return ((C3PVRing*) p)->get(x, n);       }
  uint32_t c3pv_rg_peek(void* p) {                    return ((C3PVRing*) p)->peek();              }
  uint32_t c3pv_rg_peekat(void* p, uint32_t n) {      return ((C3PVRing*) p)->peek(n);             }
  int   c3pv_rg_peeks(void* p, uint32_t* x, uint32_t n) {  return ((C3PVRing*) p)->peek(x, n);     }
  int   c3pv_rg_cull(void* p, uint32_t n) {           return ((C3PVRing*) p)->cull(n);             }
  void  c3pv_rg_clear(void* p) {                      ((C3PVRing*) p)->clear();                    }
  bool  c3pv_rg_contains(void* p, uint32_t x) {       return ((C3PVRing*) p)->contains(x);         }
  uint32_t c3pv_rg_count(void* p) {                   return ((C3PVRing*) p)->count();             }
  uint32_t c3pv_rg_vacancy(void* p) {                 return ((C3PVRing*) p)->vacancy();           }
  uint32_t c3pv_rg_capacity(void* p) {                return ((C3PVRing*) p)->capacity();          }
  bool  c3pv_rg_empty(void* p) {                      return ((C3PVRing*) p)->isEmpty();           }
  uint32_t c3pv_rg_heap(void* p) {                    return ((C3PVRing*) p)->heap_use();          }

  typedef LinkedList<C3PVE> C3PVList;
  void* c3pv_ll_new() {                               return new C3PVList();                       }
  void  c3pv_ll_delete(void* p) {                     delete (C3PVList*) p;                        }
  int   c3pv_ll_insert(void* p, C3PVE x) {            return ((C3PVList*) p)->insert(x);           }
  int   c3pv_ll_athead(void* p, C3PVE x) {            return ((C3PVList*) p)->insertAtHead(x);     }
  C3PVE c3pv_ll_remove(void* p) {                     return ((C3PVList*) p)->remove();            }
  C3PVE c3pv_ll_removeat(void* p, int n) {            return ((C3PVList*) p)->remove(n);           }
  bool  c3pv_ll_removeall(void* p, C3PVE x) {         return ((C3PVList*) p)->remove(x);           }
  C3PVE c3pv_ll_get(void* p) {                        return ((C3PVList*) p)->get();               }
  C3PVE c3pv_ll_getat(void* p, int n) {               return ((C3PVList*) p)->get(n);              }
  bool  c3pv_ll_contains(void* p, C3PVE x) {          return ((C3PVList*) p)->contains(x);         }
  int   c3pv_ll_size(void* p) {                       return ((C3PVList*) p)->size();              }
  bool  c3pv_ll_hasnext(void* p) {                    return ((C3PVList*) p)->hasNext();           }
  int   c3pv_ll_clear(void* p) {                      return ((C3PVList*) p)->clear();             }

  typedef PriorityQueue<C3PVE> C3PVQueue;
  void* c3pv_pq_new() {                               return new C3PVQueue();                      }
  void  c3pv_pq_delete(void* p) {                     delete (C3PVQueue*) p;                       }
  int   c3pv_pq_insert(void* p, C3PVE x, int n) {     return ((C3PVQueue*) p)->insert(x, n);       }
  int   c3pv_pq_insert0(void* p, C3PVE x) {           return ((C3PVQueue*) p)->insert(x);          }
  int   c3pv_pq_absent(void* p, C3PVE x, int n) {     return ((C3PVQueue*) p)->insertIfAbsent(x, n);  }
  int   c3pv_pq_absent0(void* p, C3PVE x) {           return ((C3PVQueue*) p)->insertIfAbsent(x);  }
  C3PVE c3pv_pq_dequeue(void* p) {                    return ((C3PVQueue*) p)->dequeue();          }
  C3PVE c3pv_pq_recycle(void* p) {                    return ((C3PVQueue*) p)->recycle();          }
  bool  c3pv_pq_removeat(void* p, int n) {            return ((C3PVQueue*) p)->remove(n);          }
  bool  c3pv_pq_removeall(void* p, C3PVE x) {         return ((C3PVQueue*) p)->remove(x);          }
  int   c3pv_pq_clear(void* p) {                      return ((C3PVQueue*) p)->clear();            }
  C3PVE c3pv_pq_get(void* p) {                        return ((C3PVQueue*) p)->get();              }
  C3PVE c3pv_pq_getat(void* p, int n) {               return ((C3PVQueue*) p)->get(n);             }
  C3PVE c3pv_pq_getpri(void* p, int n) {              return ((C3PVQueue*) p)->getByPriority(n);   }
  int   c3pv_pq_position(void* p, C3PVE x) {          return ((C3PVQueue*) p)->getPosition(x);     }
  int   c3pv_pq_priority(void* p, C3PVE x) {          return ((C3PVQueue*) p)->getPriority(x);     }
  int   c3pv_pq_priorityat(void* p, int n) {          return ((C3PVQueue*) p)->getPriority(n);     }
  bool  c3pv_pq_contains(void* p, C3PVE x) {          return ((C3PVQueue*) p)->contains(x);        }
  bool  c3pv_pq_up(void* p, C3PVE x) {                return ((C3PVQueue*) p)->incrementPriority(x);  }
  bool  c3pv_pq_down(void* p, C3PVE x) {              return ((C3PVQueue*) p)->decrementPriority(x);  }
  int   c3pv_pq_size(void* p) {                       return ((C3PVQueue*) p)->size();             }
  bool  c3pv_pq_hasnext(void* p) {                    return ((C3PVQueue*) p)->hasNext();          }

  typedef ElementPool<C3PVerifElem> C3PVPool;
  void* c3pv_ep_new(uint32_t n, uint32_t od, C3PVE p) {  return new C3PVPool(n, od, p);            }
  void  c3pv_ep_delete(void* p) {                     delete (C3PVPool*) p;                        }
  bool  c3pv_ep_allocated(void* p) {                  return ((C3PVPool*) p)->allocated();         }
  bool  c3pv_ep_inpool(void* p, C3PVE x) {            return ((C3PVPool*) p)->inPool(x);           }
  int8_t c3pv_ep_give(void* p, C3PVE x) {             return ((C3PVPool*) p)->give(x);             }
  C3PVE c3pv_ep_take(void* p) {                       return ((C3PVPool*) p)->take();              }
  uint32_t c3pv_ep_overdraws(void* p) {               return ((C3PVPool*) p)->overdraws();         }
  uint32_t c3pv_ep_freed(void* p) {                   return ((C3PVPool*) p)->overdrawsFreed();    }
  uint32_t c3pv_ep_low(void* p) {                     return ((C3PVPool*) p)->lowWaterMark();      }
  uint32_t c3pv_ep_capacity(void* p) {                return ((C3PVPool*) p)->capacity();          }
  uint32_t c3pv_ep_available(void* p) {               return ((C3PVPool*) p)->available();         }
}

extern "C" {
  typedef TimeSeries<int32_t> C3PVSeries;
  void*    c3pv_ts_new(uint32_t w, int32_t* b) {      return b ? new C3PVSeries(b, w) : new C3PVSeries(w);  }
  void     c3pv_ts_delete(void* p) {                  delete (C3PVSeries*) p;                        }
  int      c3pv_ts_init(void* p) {                    return ((C3PVSeries*) p)->init();              }
  int      c3pv_ts_window(void* p, uint32_t w) {      return ((C3PVSeries*) p)->windowSize(w);       }
  int      c3pv_ts_purge(void* p) {                   return ((C3PVSeries*) p)->purge();             }
  int      c3pv_ts_feed(void* p, int32_t x) {         return ((C3PVSeries*) p)->feedSeries(x);       }
  int      c3pv_ts_bulk(void* p) {                    return ((C3PVSeries*) p)->feedSeries();        }
  int32_t  c3pv_ts_value(void* p) {                   return ((C3PVSeries*) p)->value();             }
  int32_t  c3pv_ts_min(void* p) {                     return ((C3PVSeries*) p)->minValue();          }
  int32_t  c3pv_ts_max(void* p) {                     return ((C3PVSeries*) p)->maxValue();          }
  int32_t  c3pv_ts_median(void* p) {                  return ((C3PVSeries*) p)->median();            }
  int      c3pv_ts_dirty(void* p) {                   return ((C3PVSeries*) p)->dirty();             }
  int      c3pv_ts_clean(void* p) {                   ((C3PVSeries*) p)->markClean();  return 0;     }
  int      c3pv_ts_initd(void* p) {                   return ((C3PVSeries*) p)->initialized();       }
  int      c3pv_ts_full(void* p) {                    return ((C3PVSeries*) p)->windowFull();        }
  uint32_t c3pv_ts_last(void* p) {                    return ((C3PVSeries*) p)->lastIndex();         }
  uint32_t c3pv_ts_total(void* p) {                   return ((C3PVSeries*) p)->totalSamples();      }
  uint32_t c3pv_ts_size(void* p) {                    return ((C3PVSeries*) p)->windowSize();        }
  uint32_t c3pv_ts_used(void* p) {                    return ((C3PVSeries*) p)->memUsed();           }
  void*    c3pv_ts_mem(void* p) {                     return ((C3PVSeries*) p)->memPtr();            }
  uint32_t c3pv_ts_which(void* p, uint32_t k) {       return ((C3PVSeries*) p)->indexIsWhichSample(k);  }
  int      c3pv_ts_range(void* p, int32_t* b, uint32_t n, uint32_t o, int a) {  return ((C3PVSeries*) p)->copyValueRange(b, n, o, a);  }
  int      c3pv_ts_copy(void* p, int32_t* b, uint32_t n, int a) {  return a ? ((C3PVSeries*) p)->copyValues(b, n) : ((C3PVSeries*) p)->copyValues(b, n, false);  }
}

// Bus adapters, on hardware that is decided by the analysis.
#include "BusQueue/I2CAdapter.h"
#include "BusQueue/SPIAdapter.h"
extern "C" {
  int c3pv_hw_begin(void* op);
  int c3pv_hw_advance(void* op);
  int c3pv_hw_callback(void* dev, void* op);
  int c3pv_hw_bus(int on);
}

XferFault I2CBusOp::begin() {
  int r = c3pv_hw_begin(this);
  if (0 != r) {  abort((XferFault) r);  return (XferFault) r;  }
  set_state(XferState::INITIATE);
  return XferFault::NONE;
}
XferFault I2CBusOp::advance(uint32_t) {
  int r = c3pv_hw_advance(this);
  if (1 == r) {  markComplete();  }
  else if (0 != r) {  abort(XferFault::BUS_FAULT);  }
  return getFault();
}
int8_t I2CAdapter::_bus_init() {                     return c3pv_hw_bus(1);  }
int8_t I2CAdapter::_bus_deinit() {                   return c3pv_hw_bus(0);  }
void   I2CAdapter::printHardwareState(StringBuilder*) {}

XferFault SPIBusOp::begin() {
  int r = c3pv_hw_begin(this);
  if ((int) XferFault::BUS_BUSY == r) {  return XferFault::BUS_BUSY;  }
  if (0 != r) {  abort((XferFault) r);  return (XferFault) r;  }
  set_state(XferState::TX_WAIT);
  return XferFault::NONE;
}
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) {
  int r = c3pv_hw_advance(this);
  if (1 == r) {  markComplete();  }
  else if (0 != r) {  abort(XferFault::BUS_FAULT);  }
  return 0;
}
int8_t SPIAdapter::_bus_init() {                     return c3pv_hw_bus(1);  }
int8_t SPIAdapter::_bus_deinit() {                   return c3pv_hw_bus(0);  }
int8_t SPIAdapter::io_op_callahead(BusOp*) {         return 0;  }
int8_t SPIAdapter::io_op_callback(BusOp* op) {       return c3pv_hw_callback(nullptr, op);  }
void   SPIAdapter::printHardwareState(StringBuilder*) {}
void   SPIAdapter::printDebug(StringBuilder*) {}

struct C3PVDev : public BusOpCallback {
  int8_t io_op_callahead(BusOp*) {     return 0;  }
  int8_t io_op_callback(BusOp* op) {   return c3pv_hw_callback(this, op);  }
  int8_t queue_io_job(BusOp*) {        return -1;  }
};
struct C3PVI2C : public I2CAdapter {
  C3PVI2C(const I2CAdapterOptions* o, uint32_t n, uint8_t q) : I2CAdapter(o, n, q) {}
  void set(bool adv, bool asap) {  _pf_needs_op_advance(adv);  _pf_dispatch_on_queue(asap);  }
};
struct C3PVSPI : public SPIAdapter {
  C3PVSPI(uint32_t n, uint8_t q) : SPIAdapter(0, 1, 2, 3, n, q) {}
  void set(bool adv, bool guard) {  _pf_needs_op_advance(adv);  _adapter_set_flag(SPI_FLAG_QUEUE_GUARD, guard);  }
};
struct C3PVI2CDevice : public I2CDevice {
  C3PVI2CDevice(uint8_t a) : I2CDevice(a) {}
  int8_t io_op_callback(BusOp* op) {   return c3pv_hw_callback(this, op);  }
  int x(int how, int sub, uint8_t len, uint8_t* b) {  return (0 == how) ? writeX(sub, len, b) : ((1 == how) ? readX(sub, len, b) : ping_device());  }
};

#define C3PV_BUS(P, A, O) \
  int   c3pv_##P##_init(void* p, int x, int y) {       ((A*) p)->set(x, y);  return ((A*) p)->init();  } \
  void  c3pv_##P##_delete(void* p) {                   delete (A*) p;                    } \
  void* c3pv_##P##_take(void* p, int op, void* d) {    return ((A*) p)->new_op((BusOpcode) op, (BusOpCallback*) (C3PVDev*) d);  } \
  void* c3pv_##P##_own(int op, void* d) {              O* o = new O((BusOpcode) op, (BusOpCallback*) (C3PVDev*) d);  o->shouldReap(false);  return o;  } \
  void  c3pv_##P##_disown(void* o) {                   delete (O*) o;                    } \
  int   c3pv_##P##_poll(void* p) {                     return (int) ((A*) p)->poll();    } \
  void  c3pv_##P##_purge(void* p) {                    ((A*) p)->purge_current_job();    } \
  void  c3pv_##P##_purgeq(void* p) {                   ((A*) p)->purge_queued_work();    } \
  int   c3pv_##P##_purgedev(void* p, void* d) {        return ((A*) p)->purge_queued_work_by_dev((BusOpCallback*) (C3PVDev*) d);  } \
  void* c3pv_##P##_current(void* p) {                  return ((A*) p)->currentJob();    } \
  int   c3pv_##P##_room(void* p) {                     return ((A*) p)->roomInQueue();   } \
  int   c3pv_##P##_idle(void* p) {                     return ((A*) p)->busIdle();       } \
  int   c3pv_##P##_online(void* p) {                   return ((A*) p)->busOnline();     } \
  int   c3pv_##P##_error(void* p) {                    return ((A*) p)->busError();      } \
  int   c3pv_##P##_state(void* o) {                    return (int) ((O*) o)->get_state();   } \
  int   c3pv_##P##_fault(void* o) {                    return (int) ((O*) o)->getFault();    } \
  int   c3pv_##P##_opcode(void* o) {                   return (int) ((O*) o)->get_opcode();  } \
  void* c3pv_##P##_cb(void* o) {                       return (C3PVDev*) ((O*) o)->callback; } \
  void* c3pv_##P##_buf(void* o) {                      return ((O*) o)->buffer();            } \
  int   c3pv_##P##_owns(void* o) {                     return ((O*) o)->shouldFreeBuffer();  } \
  int   c3pv_##P##_len(void* o) {                      return ((O*) o)->bufferLen();         } \
  void  c3pv_##P##_setbuf(void* o, uint8_t* b, int n, int own) {  ((O*) o)->setBuffer(b, n);  if (own) {  ((O*) o)->shouldFreeBuffer(true);  }  }
extern "C" {
  void* c3pv_bus_dev() {                               return new C3PVDev();             }
  void  c3pv_bus_nodev(void* d) {                      delete (C3PVDev*) d;              }
  void* c3pv_i2_new(uint32_t n, int q) {               I2CAdapterOptions o(1, 2, 3);  return new C3PVI2C(&o, n, q);  }
  void* c3pv_sp_new(uint32_t n, int q) {               return new C3PVSPI(n, q);         }
  int   c3pv_i2_queue(void* p, void* o, int) {         return ((C3PVI2C*) p)->queue_io_job((I2CBusOp*) o);  }
  int   c3pv_sp_queue(void* p, void* o, int pri) {     return pri ? ((C3PVSPI*) p)->queue_io_job((SPIBusOp*) o, pri) : ((C3PVSPI*) p)->queue_io_job((SPIBusOp*) o);  }
  int   c3pv_i2_service(void* p) {                     return 0;  }
  int   c3pv_sp_service(void* p) {                     return ((C3PVSPI*) p)->service_callback_queue();  }
  int   c3pv_sp_clear(void* p) {                       return ((C3PVSPI*) p)->allQueuesClear();  }
  int   c3pv_i2_addr(void* o) {                        return ((I2CBusOp*) o)->dev_addr;  }
  int   c3pv_i2_sub(void* o) {                         return ((I2CBusOp*) o)->sub_addr;  }
  void* c3pv_i2_device(int a, void* p) {               C3PVI2CDevice* d = new C3PVI2CDevice(a);  d->setAdapter((C3PVI2C*) p);  return d;  }
  void  c3pv_i2_nodevice(void* d) {                    delete (C3PVI2CDevice*) d;  }
  int   c3pv_i2_x(void* d, int how, int sub, int len, uint8_t* b) {  return ((C3PVI2CDevice*) d)->x(how, sub, len, b);  }
  C3PV_BUS(i2, C3PVI2C, I2CBusOp)
  C3PV_BUS(sp, C3PVSPI, SPIBusOp)
}

// Images and UUIDs
#include "Image/Image.h"
#include "uuid.h"
extern "C" {
  #define C3PVI  ((Image*) p)
  typedef ImgBufferFormat C3PVF;
  void     c3pv_im_init0(void* p) {                                          new (p) Image();                             }
  void     c3pv_im_init(void* p, PixUInt x, PixUInt y, uint8_t f) {          new (p) Image(x, y, (C3PVF) f);              }
  void     c3pv_im_initb(void* p, PixUInt x, PixUInt y, uint8_t f, uint8_t* b) {  new (p) Image(x, y, (C3PVF) f, b);      }
  void     c3pv_im_fini(void* p) {                                           C3PVI->~Image();                             }
  bool     c3pv_im_setbuf(void* p, uint8_t* b) {                             return C3PVI->setBuffer(b);                  }
  bool     c3pv_im_setbuff(void* p, uint8_t* b, uint8_t f) {                 return C3PVI->setBuffer(b, (C3PVF) f);       }
  bool     c3pv_im_copy(void* p, uint8_t* b) {                               return C3PVI->setBufferByCopy(b);            }
  bool     c3pv_im_copyf(void* p, uint8_t* b, uint8_t f) {                   return C3PVI->setBufferByCopy(b, (C3PVF) f); }
  bool     c3pv_im_size(void* p, PixUInt x, PixUInt y) {                     return C3PVI->setSize(x, y);                 }
  bool     c3pv_im_realloc(void* p) {                                        return C3PVI->reallocate();                  }
  uint32_t c3pv_im_bytes(void* p) {                                          return C3PVI->bytesUsed();                   }
  void     c3pv_im_wipe(void* p) {                                           C3PVI->wipe();                               }
  int8_t   c3pv_im_ser(void* p, void* sb) {                                  return C3PVI->serialize((StringBuilder*) sb);  }
  int8_t   c3pv_im_serb(void* p, uint8_t* b, uint32_t* n) {                  return C3PVI->serialize(b, n);               }
  int8_t   c3pv_im_serh(void* p, uint8_t* b, uint32_t* n) {                  return C3PVI->serializeWithoutBuffer(b, n);  }
  int8_t   c3pv_im_deser(void* p, uint8_t* b, uint32_t n) {                  return C3PVI->deserialize(b, n);             }
  uint32_t c3pv_im_get(void* p, PixUInt x, PixUInt y) {                      return C3PVI->getPixel(x, y);                }
  uint32_t c3pv_im_getas(void* p, PixUInt x, PixUInt y, uint8_t f) {         return C3PVI->getPixelAsFormat(x, y, (C3PVF) f);  }
  bool     c3pv_im_set(void* p, PixUInt x, PixUInt y, uint32_t c) {          return C3PVI->setPixel(x, y, c);             }
  bool     c3pv_im_rgb(void* p, PixUInt x, PixUInt y, uint8_t r, uint8_t g, uint8_t b) {  return C3PVI->setPixel(x, y, r, g, b);  }
  PixUInt  c3pv_im_x(void* p) {                                              return C3PVI->x();                           }
  PixUInt  c3pv_im_y(void* p) {                                              return C3PVI->y();                           }
  uint8_t* c3pv_im_buffer(void* p) {                                         return C3PVI->buffer();                      }
  uint8_t  c3pv_im_format(void* p) {                                         return (uint8_t) C3PVI->format();            }
  uint8_t  c3pv_im_bpp(void* p) {                                            return C3PVI->bitsPerPixel();                }
  bool     c3pv_im_locked(void* p) {                                         return C3PVI->locked();                      }
  bool     c3pv_im_color(void* p) {                                          return C3PVI->isColor();                     }
  void     c3pv_im_orient(void* p, uint8_t o, bool fx, bool fy) {            C3PVI->orientation((ImgOrientation) o);  C3PVI->flipX(fx);  C3PVI->flipY(fy);  }
  void     c3pv_im_fill(void* p, uint32_t c) {                               C3PVI->fill(c);                              }
  void     c3pv_im_hline(void* p, PixUInt x, PixUInt y, PixUInt w, uint32_t c) {  C3PVI->drawFastHLine(x, y, w, c);       }
  void     c3pv_im_vline(void* p, PixUInt x, PixUInt y, PixUInt h, uint32_t c) {  C3PVI->drawFastVLine(x, y, h, c);       }
  void     c3pv_im_line(void* p, PixUInt a, PixUInt b, PixUInt x, PixUInt y, uint32_t c) {    C3PVI->drawLine(a, b, x, y, c);  }
  void     c3pv_im_frect(void* p, PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t c) {   C3PVI->fillRect(x, y, w, h, c);  }
  void     c3pv_im_rect(void* p, PixUInt x, PixUInt y, PixUInt w, PixUInt h, uint32_t c) {    C3PVI->drawRect(x, y, w, h, c);  }
  void     c3pv_im_circle(void* p, PixUInt x, PixUInt y, PixUInt r, uint32_t c) {             C3PVI->drawCircle(x, y, r, c);   }
  void     c3pv_im_disc(void* p, PixUInt x, PixUInt y, PixUInt r, uint32_t c) {               C3PVI->fillCircle(x, y, r, c);   }
  void     c3pv_im_tri(void* p, PixUInt a, PixUInt b, PixUInt c, PixUInt d, PixUInt e, PixUInt f, uint32_t k) {   C3PVI->drawTriangle(a, b, c, d, e, f, k);  }
  void     c3pv_im_bitmap(void* p, PixUInt x, PixUInt y, const uint8_t* b, PixUInt w, PixUInt h) {  C3PVI->drawBitmap(x, y, b, w, h);  }

  void     c3pv_uu_from(const char* s, void* u) {              uuid_from_str(s, (UUID*) u);              }
  void     c3pv_uu_str(void* u, char* b, int n) {              uuid_to_str((UUID*) u, b, n);             }
  void     c3pv_uu_sb(void* u, void* sb) {                     uuid_to_sb((UUID*) u, (StringBuilder*) sb);  }
  void     c3pv_uu_gen(void* u) {                              uuid_gen((UUID*) u);                      }
  int      c3pv_uu_cmp(void* a, void* b) {                     return uuid_compare((UUID*) a, (UUID*) b);  }
  void     c3pv_uu_copy(void* a, void* b) {                    uuid_copy((UUID*) a, (UUID*) b);          }
}

// Console
#include "Console/C3PConsole.h"
extern "C" {
  int   c3pv_con_called(int which, void* log, void* args);
  static int c3pv_con_cb0(StringBuilder* l, StringBuilder* a) {  return c3pv_con_called(0, l, a);  }
  static int c3pv_con_cb1(StringBuilder* l, StringBuilder* a) {  return c3pv_con_called(1, l, a);  }
  static int c3pv_con_cb2(StringBuilder* l, StringBuilder* a) {  return c3pv_con_called(2, l, a);  }
  void  c3pv_con_init(void* p, int max, uint8_t term, uint8_t echo, uint8_t histfail, uint8_t depth) {
    ParsingConsole* c = new (p) ParsingConsole((uint16_t) max);
    c->setRXTerminator((LineTerm) term);
    c->localEcho(echo);
    c->historyFail(histfail);
    c->maxHistoryDepth(depth);
  }
  void  c3pv_con_define(void* p, const char* c0, const char* c1, const char* c2) {
    ((ParsingConsole*) p)->defineCommand(c0, 'z', "h", "p", 0, c3pv_con_cb0);
    ((ParsingConsole*) p)->defineCommand(c1, "h", "p", 1, c3pv_con_cb1);
    ((ParsingConsole*) p)->defineCommand(c2, 'Q', "h", "p", 2, c3pv_con_cb2);
  }
  void  c3pv_con_fini(void* p) {                    ((ParsingConsole*) p)->~ParsingConsole();               }
  int   c3pv_con_push(void* p, void* sb) {          return ((ParsingConsole*) p)->pushBuffer((StringBuilder*) sb);  }
  void  c3pv_con_fetch(void* p, void* sb) {         ((ParsingConsole*) p)->fetchLog((StringBuilder*) sb);   }
  void  c3pv_con_print(void* p, void* sb) {         ((ParsingConsole*) p)->printToLog((StringBuilder*) sb); }
  int   c3pv_con_depth(void* p) {                   return ((ParsingConsole*) p)->historyDepth();           }
  void  c3pv_con_history(void* p, void* sb) {       ((ParsingConsole*) p)->printHistory((StringBuilder*) sb);  }
  void  c3pv_con_efferant(void* p, void* e) {       ((ParsingConsole*) p)->setEfferant((BufferAccepter*) e);  }
  int   c3pv_con_sizeof() {                         return sizeof(ParsingConsole);  }
}
