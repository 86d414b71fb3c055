// C05: serialized types, values and configurations come back unchanged;
// malformed ones are refused without touching memory they do not own.
#include "arr.h"

#include "google/protobuf/util/json_util.h"
#include "google/protobuf/util/message_differencer.h"

#include "libspu/core/config.h"
#include "libspu/core/type.h"
#include "libspu/core/value.h"
#include "libspu/mpc/aby3/type.h"
#include "libspu/mpc/cheetah/type.h"
#include "libspu/mpc/common/pv2k.h"
#include "libspu/mpc/experimental/swift/type.h"
#include "libspu/mpc/ref2k/ref2k.h"
#include "libspu/mpc/securenn/type.h"
#include "libspu/mpc/semi2k/type.h"
#include "libspu/mpc/spdz2k/type.h"
#include "libspu/spu.pb.h"

using namespace spu;
using vh::Case;
using vh::Count;
using vh::Cover;
using vh::Describe;
using vh::Fail;
using vh::Rng;

namespace {
void RegisterAll() {
  static std::once_flag f;
  std::call_once(f, [] {
    mpc::regPV2kTypes();
    mpc::semi2k::registerTypes();
    mpc::aby3::registerTypes();
    mpc::cheetah::registerTypes();
    mpc::securenn::registerTypes();
    mpc::swift::registerTypes();
    mpc::spdz2k::registerTypes();
    vh::MpcOpt o;
    o.cfg.protocol = ProtocolKind::REF2K;
    o.cfg.field = FM64;
    o.npc = 1;
    vh::RunMpc(o, [](SPUContext*, size_t) { return 0; });
  });
}
const FieldType kFields[] = {FM32, FM64, FM128};
const PtType kBack[] = {PT_U8, PT_U16, PT_U32, PT_U64, PT_U128};

struct TD {
  Type t;
  size_t size;      // bytes per element
  Visibility vis;   // of a value with it
  size_t nbits;     // or npos
};
// A random type, with its attributes known independently.
TD RandType(Rng& g) {
  FieldType f = kFields[g.below(3)];
  const size_t w = vh::FieldBits(f) / 8;
  const size_t np = std::string::npos;
  PtType bt = kBack[g.below(5)];
  const size_t bw = size_t{1} << (bt == PT_U8 ? 0 : bt == PT_U16 ? 1 : bt == PT_U32 ? 2 : bt == PT_U64 ? 3 : 4);
  size_t nb = g.below(w * 8 + 1), bnb = g.below(bw * 8 + 1);
  switch (g.below(24)) {
    case 0: return {makeType<RingTy>(f), w, VIS_INVALID, np};
    case 1: return {makeType<GfmpTy>(f), w, VIS_INVALID, np};
    case 2: return {makeType<mpc::Pub2kTy>(f), w, VIS_PUBLIC, np};
    case 3: return {makeType<mpc::Priv2kTy>(f, g.chance(20) ? -1 : static_cast<int64_t>(g.below(40))), w, VIS_PRIVATE, np};
    case 4: return {makeType<mpc::semi2k::AShrTy>(f), w, VIS_SECRET, np};
    case 5: return {makeType<mpc::semi2k::BShrTy>(f, nb), w, VIS_SECRET, nb};
    case 6: return {makeType<mpc::semi2k::BShrTy>(f), w, VIS_SECRET, w * 8};
    case 7: return {makeType<mpc::semi2k::PShrTy>(), 8, VIS_SECRET, np};
    case 8: return {makeType<mpc::cheetah::AShrTy>(f), w, VIS_SECRET, np};
    case 9: return {makeType<mpc::cheetah::BShrTy>(f, nb), w, VIS_SECRET, nb};
    case 10: return {makeType<mpc::cheetah::PShrTy>(), 8, VIS_SECRET, np};
    case 11: return {makeType<mpc::securenn::AShrTy>(f), w, VIS_SECRET, np};
    case 12: return {makeType<mpc::securenn::BShrTy>(f, nb), w, VIS_SECRET, nb};
    case 13: return {makeType<mpc::aby3::AShrTy>(f), 2 * w, VIS_SECRET, np};
    case 14: return {makeType<mpc::aby3::BShrTy>(bt, bnb), 2 * bw, VIS_SECRET, bnb};
    case 15: return {makeType<mpc::aby3::OShrTy>(f), 2 * w, VIS_SECRET, np};
    case 16: return {makeType<mpc::aby3::OPShrTy>(f), w, VIS_SECRET, np};
    case 17: return {makeType<mpc::aby3::PShrTy>(), 16, VIS_SECRET, np};
    case 18: return {makeType<mpc::swift::AShrTy>(f), 3 * w, VIS_SECRET, np};
    case 19: return {makeType<mpc::swift::BShrTy>(f, nb), 3 * w, VIS_SECRET, nb};
    case 20: return {makeType<mpc::spdz2k::AShrTy>(f, g.chance(50)), 2 * w, VIS_SECRET, np};
    case 21: return {makeType<mpc::spdz2k::BShrTy>(bt, bnb, f), w * 2 * (w * 8 / 2), VIS_SECRET, bnb};
    case 22: {
      static const PtType pts[] = {PT_I8, PT_U8, PT_I16, PT_U16, PT_I32, PT_U32, PT_I64, PT_U64, PT_I128, PT_U128, PT_I1, PT_F16, PT_F32, PT_F64, PT_CF32, PT_CF64};
      static const size_t sz[] = {1, 1, 2, 2, 4, 4, 8, 8, 16, 16, 1, 2, 4, 8, 8, 16};
      size_t i = g.below(16);
      return {makePtType(pts[i]), sz[i], VIS_INVALID, np};
    }
    default: return {Type::fromString(fmt::format("ref2k.Sec<{}>", vh::FieldName(f))), w, VIS_SECRET, np};
  }
}
size_t NBits(const Type& t) { return t.isa<BShare>() ? t.as<BShare>()->nbits() : std::string::npos; }

void Types(Case& c) {
  RegisterAll();
  auto& g = c.rng;
  for (int k = 0; k < 40; k++) {
    TD a = RandType(g), b = RandType(g);
    std::string s = a.t.toString();
    Describe(c, s + " / " + b.t.toString());
    if (a.t.size() != a.size) return Fail(c, "type:size", fmt::format("{}: {} bytes, want {}", s, a.t.size(), a.size));
    if (NBits(a.t) != a.nbits) return Fail(c, "type:nbits", fmt::format("{}: {} bits, want {}", s, NBits(a.t), a.nbits));
    Type r = Type::fromString(s);
    if (!(r == a.t) || r != a.t || !(a.t == r)) return Fail(c, "type:roundtrip", fmt::format("{} parses as a different type {}", s, r.toString()));
    if (r.toString() != s || r.size() != a.size || NBits(r) != a.nbits) {
      return Fail(c, "type:roundtrip", fmt::format("{} parses as {} of {} bytes (want {}), {} bits", s, r.toString(), r.size(), a.size, NBits(r)));
    }
    bool traits = r.isa<Secret>() == a.t.isa<Secret>() && r.isa<Public>() == a.t.isa<Public>() && r.isa<Private>() == a.t.isa<Private>() && r.isa<Ring2k>() == a.t.isa<Ring2k>() &&
                  r.isa<AShare>() == a.t.isa<AShare>() && r.isa<BShare>() == a.t.isa<BShare>() && r.isa<PShare>() == a.t.isa<PShare>() && r.isa<OShare>() == a.t.isa<OShare>() && r.isa<OPShare>() == a.t.isa<OPShare>() && r.isa<Gfp>() == a.t.isa<Gfp>();
    if (!traits) return Fail(c, "type:roundtrip", s + " loses a property when parsed");
    if (a.t.isa<Ring2k>() && (!r.isa<Ring2k>() || r.as<Ring2k>()->field() != a.t.as<Ring2k>()->field())) return Fail(c, "type:roundtrip", s + ": field");
    if (a.t.isa<Private>() && r.as<Private>()->owner() != a.t.as<Private>()->owner()) return Fail(c, "type:roundtrip", s + ": owner");
    if (a.t.isa<Gfp>() && r.as<Gfp>()->p() != vh::Mask(a.size == 4 ? 31 : a.size == 8 ? 61 : 127)) return Fail(c, "type:roundtrip", s + ": prime");
    // equality separates what the representation separates
    bool same = s == b.t.toString();
    if ((a.t == b.t) != same || (a.t != b.t) == same) return Fail(c, "type:equal", fmt::format("{} and {} compare {}", s, b.t.toString(), a.t == b.t));
    if (same && a.size != b.size) return Fail(c, "type:equal", fmt::format("{} names types of {} and {} bytes", s, a.size, b.size));
    // value semantics
    Type cp = a.t, as;
    as = b.t;
    as = a.t;
    Type mv = std::move(cp);
    if (mv != a.t || as != a.t || mv.size() != a.size || as.size() != a.size) return Fail(c, "type:copy", s);
    // a malformed representation: refused, or a sound type
    std::string m = s;
    int edits = static_cast<int>(g.range(1, 3));
    for (int e = 0; e < edits; e++) {
      switch (g.below(6)) {
        case 0: if (!m.empty()) m.erase(g.below(m.size()), g.range(1, 3)); break;
        case 1: m.insert(g.below(m.size() + 1), 1, "<>,-0129MFx "[g.below(12)]); break;
        case 2: if (!m.empty()) m[g.below(m.size())] = "<>,-0129MFx "[g.below(12)]; break;
        case 3: { std::string o = b.t.toString(); auto p = m.find('<'), q = o.find('<'); if (p != std::string::npos && q != std::string::npos) m = m.substr(0, p) + o.substr(q); break; }
        case 4: { auto p = m.find(','); if (p != std::string::npos) m = m.substr(0, p + 1) + std::to_string(g.range(-3, 300)) + ">"; break; }
        default: m = m.substr(0, g.below(m.size() + 1));
      }
    }
    if (m == s) continue;
    Describe(c, "malformed " + m);
    Type q;
    try {
      q = Type::fromString(m);
    } catch (const std::exception&) {
      Count("malformed types refused");
      Cover("refused/" + s.substr(0, s.find('<')));
      continue;
    }
    Type q2 = Type::fromString(q.toString());
    if (q2 != q || q2.size() != q.size()) return Fail(c, "type:malformed", fmt::format("'{}' parses as {}, which does not parse back", m, q.toString()));
    if (q.isa<BShare>() && q.size() > 0) {
      size_t room = q.isa<Ring2k>() && !q.toString().rfind("spdz2k", 0) == 0 ? vh::FieldBits(q.as<Ring2k>()->field()) : q.size() * 4;
      if (NBits(q) > room) return Fail(c, "type:malformed", fmt::format("'{}' parses as {} with more bits than storage", m, q.toString()));
    }
    Count("odd representations read as sound types");
  }
  Count("type round trips", 40);
  Cover(fmt::format("types/{}", c.index % 64));
}

// ---------------------------------------------------------------- values
struct VD {
  Value v;
  std::vector<uint8_t> re, im;
};
std::vector<uint8_t> Bytes(const NdArrayRef& a) {
  std::vector<uint8_t> r;
  const size_t w = a.elsize();
  const auto& sh = a.shape();
  const auto& st = a.strides();
  std::vector<int64_t> idx(sh.size(), 0);
  const auto* base = static_cast<const uint8_t*>(static_cast<const void*>(a.buf()->data<uint8_t>())) + a.offset();
  for (int64_t k = 0; k < a.numel(); k++) {
    int64_t off = 0;
    for (size_t d = 0; d < sh.size(); d++) off += idx[d] * st[d];
    const auto* p = base + off * static_cast<int64_t>(w);
    r.insert(r.end(), p, p + w);
    for (int64_t d = static_cast<int64_t>(sh.size()) - 1; d >= 0; d--) {
      if (++idx[d] < sh[d]) break;
      idx[d] = 0;
    }
  }
  return r;
}
const DataType kDt[] = {DT_I1, DT_I8, DT_U8, DT_I16, DT_U16, DT_I32, DT_U32, DT_I64, DT_U64, DT_F16, DT_F32, DT_F64};
VD RandValue(Rng& g, int64_t max_numel) {
  TD t = RandType(g);
  while (t.vis == VIS_INVALID || t.size > 256) t = RandType(g);
  Shape sh = vh::RandShape(g, 4, max_numel);
  auto a = vh::RandView(g, t.t, sh, true);
  DataType dt = kDt[g.below(12)];
  VD r;
  r.re = Bytes(a);
  if (g.chance(25)) {
    auto b = vh::RandView(g, t.t, sh, true);
    r.im = Bytes(b);
    r.v = Value(a, b, dt);
  } else {
    r.v = Value(a, dt);
  }
  return r;
}
std::string Desc(const Value& v) { return fmt::format("{} {}", vh::Layout(v.data()), v.isComplex() ? "complex" : ""); }
bool SameValue(Case& c, const std::string& key, const Value& got, const VD& want) {
  auto bad = [&](const std::string& m) {
    Fail(c, key, m + " of " + Desc(want.v));
    return false;
  };
  if (got.shape() != want.v.shape()) return bad("shape");
  if (got.storage_type() != want.v.storage_type()) return bad("storage type");
  if (got.dtype() != want.v.dtype()) return bad("data type");
  if (got.vtype() != want.v.vtype()) return bad("visibility");
  if (got.isComplex() != want.v.isComplex()) return bad("complexity");
  if (Bytes(got.data()) != want.re) return bad("content");
  if (got.isComplex() && (Bytes(*got.imag()) != want.im || got.imag()->shape() != want.v.shape())) return bad("imaginary content");
  return true;
}
ValueProto Copy(Rng& g, const ValueProto& p, bool shuffle_chunks) {
  // through the wire format
  ValueProto r;
  r.meta.ParseFromString(p.meta.SerializeAsString());
  for (auto& ch : p.chunks) {
    pb::ValueChunkProto q;
    q.ParseFromString(ch.SerializeAsString());
    r.chunks.push_back(q);
  }
  if (shuffle_chunks) {
    for (size_t i = r.chunks.size(); i > 1; i--) std::swap(r.chunks[i - 1], r.chunks[g.below(i)]);
  }
  return r;
}
void Values(Case& c) {
  RegisterAll();
  auto& g = c.rng;
  VD d = RandValue(g, 60);
  const size_t total = d.re.size();
  size_t chunk = g.chance(20) ? 1 + g.below(4) : g.chance(40) ? 1 + g.below(total + 2) : g.chance(20) ? std::max<size_t>(total, 1) : 1 << 20;
  if (total / chunk > 2000) chunk = total / 2000 + 1;
  Describe(c, fmt::format("value {} chunk {}", Desc(d.v), chunk));
  auto p = d.v.toProto(chunk);
  const size_t parts = d.v.isComplex() ? 2 : 1, per = total == 0 ? 0 : (total + chunk - 1) / chunk;
  if (p.chunks.size() != parts * per) return Fail(c, "value:chunks", fmt::format("{} chunks, want {}", p.chunks.size(), parts * per));
  if (d.v.chunksCount(chunk) != per) return Fail(c, "value:chunkscount", fmt::format("announces {} chunks, writes {}", d.v.chunksCount(chunk), per));
  for (size_t i = 0; i < p.chunks.size(); i++) {
    auto& ch = p.chunks[i];
    const auto& src = i < per ? d.re : d.im;
    size_t off = (i % per) * chunk, len = std::min(chunk, total - off);
    if (ch.total_bytes() != total || ch.chunk_offset() != off || ch.content().size() != len || std::memcmp(ch.content().data(), src.data() + off, len) != 0) {
      return Fail(c, "value:chunks", fmt::format("chunk {}: total {} offset {} size {}", i, ch.total_bytes(), ch.chunk_offset(), ch.content().size()));
    }
  }
  if (Bytes(d.v.data()) != d.re) return Fail(c, "value:operand", "serializing changed the value");
  Value r = Value::fromProto(Copy(g, p, !d.v.isComplex() && g.chance(50)));
  if (!SameValue(c, "value:roundtrip", r, d)) return;
  if (!SameValue(c, "value:clone", d.v.clone(), d)) return;
  // pack and unpack of a list of values of one type
  if (!d.v.isComplex()) {
    std::vector<Value> vs;
    std::vector<VD> ds;
    for (int64_t k = g.range(1, 4); k > 0; k--) {
      VD e;
      auto a = vh::RandView(g, d.v.storage_type(), vh::RandShape(g, 3, 30), true);
      e.re = Bytes(a);
      e.v = Value(a, d.v.dtype());
      vs.push_back(e.v);
      ds.push_back(e);
    }
    SimdTrait<Value>::PackInfo pi;
    Value packed = SimdTrait<Value>::pack(vs.begin(), vs.end(), pi);
    std::vector<uint8_t> cat;
    for (auto& e : ds) cat.insert(cat.end(), e.re.begin(), e.re.end());
    if (Bytes(packed.data()) != cat || packed.dtype() != d.v.dtype()) return Fail(c, "value:pack", "packed content");
    std::vector<Value> un;
    SimdTrait<Value>::unpack(packed, std::back_inserter(un), pi);
    if (un.size() != ds.size()) return Fail(c, "value:pack", "count");
    for (size_t i = 0; i < un.size(); i++) if (!SameValue(c, "value:pack", un[i], ds[i])) return;
  }
  Count("value round trips");
  Count("chunks", p.chunks.size());
  Cover(fmt::format("value/{}/{}d/{}/{}", d.v.storage_type().toString().substr(0, 14), d.v.shape().size(), per > 3 ? 3 : per, d.v.isComplex()));
}
void BadValues(Case& c) {
  RegisterAll();
  auto& g = c.rng;
  VD d = RandValue(g, 40);
  const size_t total = d.re.size();
  size_t chunk = 1 + g.below(total + 2);
  if (total / chunk > 60) chunk = total / 60 + 1;
  auto p = Copy(g, d.v.toProto(chunk), false);
  std::string what;
  auto& ch = p.chunks;
  int m = g.below(12);
  switch (m) {
    case 0: if (ch.empty()) return; what = "chunk dropped"; ch.erase(ch.begin() + g.below(ch.size())); break;
    case 1: if (ch.empty()) return; what = "chunk repeated"; ch.push_back(ch[g.below(ch.size())]); break;
    case 2: {
      if (ch.empty()) return;
      what = "content extended";
      auto& x = ch[g.below(ch.size())];
      *x.mutable_content() += std::string(g.chance(50) ? 1 : g.range(1, 4000), 'x');
      break;
    }
    case 3: {
      if (ch.empty()) return;
      what = "content truncated";
      auto& x = ch[g.below(ch.size())];
      x.mutable_content()->resize(g.below(x.content().size()));
      break;
    }
    case 4: {
      if (ch.empty()) return;
      what = "offset changed";
      auto& x = ch[g.below(ch.size())];
      x.set_chunk_offset(g.chance(30) ? g.u64() : x.chunk_offset() + 1 + g.below(9));
      break;
    }
    case 5:
      if (ch.empty()) return;
      what = "total changed";
      for (auto& x : ch) x.set_total_bytes(x.total_bytes() + (g.chance(50) ? 1 : g.below(100000) + 1));
      break;
    case 6: {
      what = "dimension changed";
      auto* s = p.meta.mutable_shape();
      if (s->dims_size() == 0 || d.v.numel() == 0) return;
      s->set_dims(g.below(s->dims_size()), 0);
      break;
    }
    case 7: {
      what = "dimension added";
      if (d.v.numel() == 0) return;
      p.meta.mutable_shape()->add_dims(g.range(2, 5));
      break;
    }
    case 8:
      what = "visibility changed";
      p.meta.set_visibility(static_cast<pb::Visibility>((p.meta.visibility() + g.range(1, 3)) % 4));
      break;
    case 9: what = "data type invalid"; p.meta.set_data_type(pb::DT_INVALID); break;
    case 10: {
      what = "negative dimensions";
      auto* s = p.meta.mutable_shape();
      if (g.chance(50) && s->dims_size() >= 2) {  // the product stays the same
        int i = static_cast<int>(g.below(s->dims_size() - 1));
        if (s->dims(i) <= 0 || s->dims(i + 1) <= 0) return;
        s->set_dims(i, -s->dims(i));
        s->set_dims(i + 1, -s->dims(i + 1));
      } else {
        s->add_dims(-1);
        s->add_dims(-1);
      }
      break;
    }
    default: {
      what = "storage type of another size";
      TD t = RandType(g);
      if (t.size == d.v.elsize() || total == 0) return;
      p.meta.set_storage_type(t.t.toString());
    }
  }
  Describe(c, fmt::format("{}: {} chunk {}", what, Desc(d.v), chunk));
  bool threw = false;
  try {
    (void)Value::fromProto(p);
  } catch (const std::exception&) {
    threw = true;
  }
  if (!threw) return Fail(c, fmt::format("value:malformed:{}", m), what + " was accepted: " + Desc(d.v));
  Count("malformed values refused");
  Cover(fmt::format("bad/{}/{}", m, d.v.isComplex()));
}

// ---------------------------------------------------------------- configurations
void FillRandom(Rng& g, google::protobuf::Message* m, bool sparse) {
  const auto* ds = m->GetDescriptor();
  const auto* rf = m->GetReflection();
  for (int i = 0; i < ds->field_count(); i++) {
    const auto* f = ds->field(i);
    if (sparse && g.chance(60)) continue;
    using FD = google::protobuf::FieldDescriptor;
    int reps = f->is_repeated() ? static_cast<int>(g.below(4)) : 1;
    for (int k = 0; k < reps; k++) {
      bool rep = f->is_repeated();
      switch (f->cpp_type()) {
        case FD::CPPTYPE_BOOL: { bool v = g.chance(60); rep ? rf->AddBool(m, f, v) : rf->SetBool(m, f, v); break; }
        case FD::CPPTYPE_INT32: { auto v = static_cast<int32_t>(g.chance(30) ? g.u64() : 1 + g.below(100)); rep ? rf->AddInt32(m, f, v) : rf->SetInt32(m, f, v); break; }
        case FD::CPPTYPE_INT64: { auto v = static_cast<int64_t>(g.chance(30) ? g.u64() : 1 + g.below(100)); rep ? rf->AddInt64(m, f, v) : rf->SetInt64(m, f, v); break; }
        case FD::CPPTYPE_UINT32: { auto v = static_cast<uint32_t>(g.chance(30) ? g.u64() : 1 + g.below(100)); rep ? rf->AddUInt32(m, f, v) : rf->SetUInt32(m, f, v); break; }
        case FD::CPPTYPE_UINT64: { auto v = g.chance(30) ? g.u64() : 1 + g.below(100); rep ? rf->AddUInt64(m, f, v) : rf->SetUInt64(m, f, v); break; }
        case FD::CPPTYPE_STRING: {
          std::string s;
          for (auto n = g.below(12); n > 0; n--) s += static_cast<char>('!' + g.below(90));
          rep ? rf->AddString(m, f, s) : rf->SetString(m, f, s);
          break;
        }
        case FD::CPPTYPE_ENUM: {
          const auto* e = f->enum_type();
          auto v = e->value(g.below(e->value_count()))->number();
          rep ? rf->AddEnumValue(m, f, v) : rf->SetEnumValue(m, f, v);
          break;
        }
        case FD::CPPTYPE_MESSAGE: FillRandom(g, rep ? rf->AddMessage(m, f) : rf->MutableMessage(m, f), false); break;
        default: break;
      }
    }
  }
}
void Config(Case& c) {
  auto& g = c.rng;
  pb::RuntimeConfig p;
  FillRandom(g, &p, g.chance(50));
  if (p.protocol() != pb::CHEETAH) p.clear_cheetah_2pc_config();  // only kept for that protocol
  else p.mutable_cheetah_2pc_config();
  Describe(c, p.ShortDebugString());
  auto same = [&](const pb::RuntimeConfig& q, const char* how) {
    std::string diff;
    google::protobuf::util::MessageDifferencer d;
    d.ReportDifferencesToString(&diff);
    if (!d.Compare(p, q)) {
      Fail(c, fmt::format("config:{}", how), diff.substr(0, 300));
      return false;
    }
    return true;
  };
  RuntimeConfig r(p);
  if (!same(r.ToProto(), "toproto")) return;
  RuntimeConfig s;
  if (!s.ParseFromString(p.SerializeAsString())) return Fail(c, "config:parse", "refused its own encoding");
  if (!same(s.ToProto(), "parse")) return;
  pb::RuntimeConfig w;
  if (!w.ParseFromString(r.SerializeAsString()) || !same(w, "serialize")) return;
  std::string js;
  google::protobuf::util::MessageToJsonString(p, &js);
  RuntimeConfig t;
  if (!t.ParseFromJsonString(js)) return Fail(c, "config:json", js);
  if (!same(t.ToProto(), "json")) return;
  RuntimeConfig u = r;
  if (!same(u.ToProto(), "copy")) return;
  // spot-checks that bind the fields of the struct to those of the message
  bool ok = r.protocol == static_cast<int>(p.protocol()) && r.field == static_cast<int>(p.field()) && r.fxp_fraction_bits == p.fxp_fraction_bits() && r.max_concurrency == p.max_concurrency() &&
            r.enable_action_trace == p.enable_action_trace() && r.enable_type_checker == p.enable_type_checker() && r.enable_pphlo_trace == p.enable_pphlo_trace() &&
            r.enable_runtime_snapshot == p.enable_runtime_snapshot() && r.snapshot_dump_dir == p.snapshot_dump_dir() && r.enable_pphlo_profile == p.enable_pphlo_profile() &&
            r.enable_hal_profile == p.enable_hal_profile() && r.public_random_seed == p.public_random_seed() && r.share_max_chunk_size == p.share_max_chunk_size() &&
            r.sort_method == static_cast<int>(p.sort_method()) && r.quick_sort_threshold == p.quick_sort_threshold() && r.fxp_div_goldschmidt_iters == p.fxp_div_goldschmidt_iters() &&
            r.fxp_exp_mode == static_cast<int>(p.fxp_exp_mode()) && r.fxp_exp_iters == p.fxp_exp_iters() && r.fxp_log_mode == static_cast<int>(p.fxp_log_mode()) && r.fxp_log_iters == p.fxp_log_iters() &&
            r.fxp_log_orders == p.fxp_log_orders() && r.sigmoid_mode == static_cast<int>(p.sigmoid_mode()) && r.enable_lower_accuracy_rsqrt == p.enable_lower_accuracy_rsqrt() &&
            r.sine_cosine_iters == p.sine_cosine_iters() && r.beaver_type == static_cast<int>(p.beaver_type()) && r.trunc_allow_msb_error == p.trunc_allow_msb_error() &&
            r.experimental_disable_mmul_split == p.experimental_disable_mmul_split() && r.experimental_enable_inter_op_par == p.experimental_enable_inter_op_par() &&
            r.experimental_enable_intra_op_par == p.experimental_enable_intra_op_par() && r.experimental_disable_vectorization == p.experimental_disable_vectorization() &&
            r.experimental_inter_op_concurrency == p.experimental_inter_op_concurrency() && r.experimental_enable_colocated_optimization == p.experimental_enable_colocated_optimization() &&
            r.experimental_enable_exp_prime == p.experimental_enable_exp_prime() && r.experimental_exp_prime_offset == p.experimental_exp_prime_offset() &&
            r.experimental_exp_prime_disable_lower_bound == p.experimental_exp_prime_disable_lower_bound() && r.experimental_exp_prime_enable_upper_bound == p.experimental_exp_prime_enable_upper_bound();
  if (!ok) return Fail(c, "config:fields", "a field of the configuration differs from the message");
  if (p.protocol() == pb::CHEETAH) {
    auto& q = p.cheetah_2pc_config();
    if (r.cheetah_2pc_config.disable_matmul_pack != q.disable_matmul_pack() || r.cheetah_2pc_config.enable_mul_lsb_error != q.enable_mul_lsb_error() || r.cheetah_2pc_config.ot_kind != static_cast<int>(q.ot_kind())) return Fail(c, "config:fields", "cheetah");
  }
  if (r.has_ttp_beaver_config() != p.has_ttp_beaver_config()) return Fail(c, "config:fields", "ttp");
  if (r.has_ttp_beaver_config()) {
    auto& q = p.ttp_beaver_config();
    auto& y = *r.ttp_beaver_config;
    if (y.server_host != q.server_host() || y.adjust_rank != q.adjust_rank() || y.asym_crypto_schema != q.asym_crypto_schema() || y.server_public_key != q.server_public_key() || y.transport_protocol != q.transport_protocol() || y.has_ssl_config() != q.has_ssl_config()) return Fail(c, "config:fields", "ttp");
    if (y.has_ssl_config() && (y.ssl_config->certificate != q.ssl_config().certificate() || y.ssl_config->private_key != q.ssl_config().private_key() || y.ssl_config->ca_file_path != q.ssl_config().ca_file_path() || y.ssl_config->verify_depth != q.ssl_config().verify_depth())) return Fail(c, "config:fields", "ssl");
  }
  // garbage is refused or read, never fatal
  std::string raw = p.SerializeAsString();
  if (!raw.empty()) {
    for (int k = 0; k < 3; k++) raw[g.below(raw.size())] = static_cast<char>(g.u64());
    RuntimeConfig z;
    (void)z.ParseFromString(raw);
    (void)z.ParseFromJsonString(raw);
  }
  (void)r.DumpToString();
  Count("configurations");
  Cover(fmt::format("config/{}/{}/{}", static_cast<int>(p.protocol()), p.has_ttp_beaver_config(), c.index % 40));
}
void Populate(Case& c) {
  auto& g = c.rng;
  pb::RuntimeConfig p;
  FillRandom(g, &p, true);
  p.clear_cheetah_2pc_config();
  Describe(c, p.ShortDebugString());
  vmon::g_num_threads.store(static_cast<int>(g.range(1, 9)));
  const int threads = vmon::g_num_threads.load();
  RuntimeConfig r(p);
  bool bad = r.protocol == PROT_INVALID || r.field == FT_INVALID, threw = false;
  RuntimeConfig full;
  try {
    full = makeFullRuntimeConfig(r);
  } catch (const std::exception&) {
    threw = true;
  }
  if (threw != bad) return Fail(c, "populate:mandatory", bad ? "a configuration without protocol or field was completed" : "refused a complete configuration");
  if (bad) {
    Count("incomplete configurations refused");
    return;
  }
  pb::RuntimeConfig e = r.ToProto();
  auto dflt = [](auto v, auto d) { return v == 0 ? static_cast<decltype(v)>(d) : v; };
  e.set_max_concurrency(dflt(e.max_concurrency(), threads));
  e.set_fxp_fraction_bits(dflt(e.fxp_fraction_bits(), r.field == FM32 ? 8 : r.field == FM64 ? 18 : 26));
  e.set_fxp_div_goldschmidt_iters(dflt(e.fxp_div_goldschmidt_iters(), 2));
  e.set_quick_sort_threshold(dflt(e.quick_sort_threshold(), 32));
  if (e.fxp_exp_mode() == pb::RuntimeConfig::EXP_DEFAULT) e.set_fxp_exp_mode(pb::RuntimeConfig::EXP_TAYLOR);
  if (e.fxp_exp_mode() == pb::RuntimeConfig::EXP_PRIME && r.field == FM128) e.set_experimental_exp_prime_offset(dflt(e.experimental_exp_prime_offset(), 13));
  e.set_fxp_exp_iters(dflt(e.fxp_exp_iters(), 8));
  if (e.fxp_log_mode() == pb::RuntimeConfig::LOG_DEFAULT) e.set_fxp_log_mode(pb::RuntimeConfig::LOG_MINMAX);
  e.set_fxp_log_iters(dflt(e.fxp_log_iters(), 3));
  e.set_fxp_log_orders(dflt(e.fxp_log_orders(), 8));
  e.set_sine_cosine_iters(dflt(e.sine_cosine_iters(), 10));
  if (e.experimental_enable_inter_op_par()) e.set_experimental_inter_op_concurrency(dflt(e.experimental_inter_op_concurrency(), 8));
  if (e.sigmoid_mode() == pb::RuntimeConfig::SIGMOID_DEFAULT) e.set_sigmoid_mode(pb::RuntimeConfig::SIGMOID_REAL);
  std::string diff;
  google::protobuf::util::MessageDifferencer d;
  d.ReportDifferencesToString(&diff);
  if (!d.Compare(e, full.ToProto())) return Fail(c, "populate:defaults", diff.substr(0, 300));
  if (!google::protobuf::util::MessageDifferencer::Equals(r.ToProto(), RuntimeConfig(p).ToProto())) return Fail(c, "populate:operand", "the input was changed");
  RuntimeConfig again = full;
  populateRuntimeConfig(again);
  if (!google::protobuf::util::MessageDifferencer::Equals(again.ToProto(), full.ToProto())) return Fail(c, "populate:idempotent", "completing a complete configuration changed it");
  Count("configurations completed");
  Cover(fmt::format("populate/{}/{}/{}/{}", static_cast<int>(r.field), static_cast<int>(p.fxp_exp_mode()), static_cast<int>(p.fxp_log_mode()), p.experimental_enable_inter_op_par()));
}
void Others(Case& c) {
  auto& g = c.rng;
  pb::CompilerOptions p;
  FillRandom(g, &p, g.chance(40));
  Describe(c, p.ShortDebugString());
  CompilerOptions o;
  if (!o.ParseFromString(p.SerializeAsString())) return Fail(c, "options:parse", "");
  pb::CompilerOptions q;
  q.ParseFromString(o.SerializeAsString());
  if (!google::protobuf::util::MessageDifferencer::Equals(p, q)) return Fail(c, "options:roundtrip", q.ShortDebugString());
  CompilerOptions o2;
  o2.ParseFromString(o.SerializeAsString());
  if (!(o2 == o) || std::hash<CompilerOptions>{}(o) != std::hash<CompilerOptions>{}(o2)) return Fail(c, "options:equal", "");
  pb::CompilerOptions p3 = p;
  FillRandom(g, &p3, true);
  CompilerOptions o3;
  o3.ParseFromString(p3.SerializeAsString());
  if ((o3 == o) != google::protobuf::util::MessageDifferencer::Equals(p, p3)) return Fail(c, "options:equal", "equality misses a field: " + p3.ShortDebugString());
  pb::ExecutableProto x;
  FillRandom(g, &x, g.chance(30));
  ExecutableProto e;
  if (!e.ParseFromString(x.SerializeAsString())) return Fail(c, "exe:parse", "");
  pb::ExecutableProto y;
  y.ParseFromString(e.SerializeAsString());
  if (!google::protobuf::util::MessageDifferencer::Equals(x, y)) return Fail(c, "exe:roundtrip", y.ShortDebugString());
  auto seq = [](const auto& a, const auto& b) { return a.size() == static_cast<size_t>(b.size()) && std::equal(a.begin(), a.end(), b.begin()); };
  if (e.name != x.name() || e.code != x.code() || !seq(e.input_names, x.input_names()) || !seq(e.output_names, x.output_names())) return Fail(c, "exe:fields", "");
  // names of protocols
  for (auto k : {REF2K, SEMI2K, ABY3, CHEETAH, SECURENN, SWIFT}) {
    ProtocolKind r = PROT_INVALID;
    if (!ParseProtocolKind(GetProtocolKindName(k), &r) || r != k) return Fail(c, "names:protocol", std::string(GetProtocolKindName(k)));
    if (GetProtocolKindName(k) != pb::ProtocolKind_Name(static_cast<pb::ProtocolKind>(k))) return Fail(c, "names:protocol", std::string(GetProtocolKindName(k)));
  }
  ProtocolKind r = SEMI2K;
  if (ParseProtocolKind("NO_SUCH", &r) || r != SEMI2K) return Fail(c, "names:protocol", "accepted an unknown name");
  for (int i = 0; i < 13; i++) {
    auto dt = static_cast<DataType>(i);
    if (GetDataTypeName(dt) != pb::DataType_Name(static_cast<pb::DataType>(i))) return Fail(c, "names:dtype", std::to_string(i));
    if (i == 0) continue;
    static const size_t w[] = {0, 1, 8, 8, 16, 16, 32, 32, 64, 64, 16, 32, 64};
    bool fx = i >= 10, un = i == 1 || i == 3 || i == 5 || i == 7 || i == 9;
    if (getWidth(dt) != w[i] || isFixedPoint(dt) != fx || isInteger(dt) == fx || isUInteger(dt) != un) return Fail(c, "names:dtype", fmt::format("attributes of data type {}", i));
  }
  for (auto f : kFields) {
    size_t w = f == FM32 ? 4 : f == FM64 ? 8 : 16;
    if (SizeOf(f) != w || SizeOf(GetStorageType(f)) != w || PtTypeToField(GetStorageType(f)) != f || GetMersennePrimeExp(f) != (w == 4 ? 31 : w == 8 ? 61 : 127)) return Fail(c, "names:field", std::string(GetFieldTypeName(f)));
    if (GetFieldTypeName(f) != vh::FieldName(f)) return Fail(c, "names:field", std::string(GetFieldTypeName(f)));
  }
  Count("other messages", 4);
  Cover(fmt::format("others/{}", c.index % 30));
}
}  // namespace

int main(int argc, char** argv) {
  return vh::Main(argc, argv, {{"types", 600, 8000, Types}, {"values", 5000, 60000, Values}, {"badvalues", 5000, 60000, BadValues}, {"config", 1500, 20000, Config}, {"populate", 1500, 20000, Populate}, {"others", 600, 6000, Others}});
}
