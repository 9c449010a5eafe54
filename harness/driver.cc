// Conformance driver: executes commands (one JSON object per line on stdin) against the real
// libkeepass classes and answers with one JSON object per line on stdout. It knows nothing about
// what the answers should be; the specification judges them.
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <atomic>
#include <thread>
#include <typeinfo>
#include <vector>

#include <cxxabi.h>
#include <openssl/sha.h>

#include "base64.hh"
#include "binary.hh"
#include "cipher.hh"
#include "database.hh"
#include "entry.hh"
#include "exception.hh"
#include "group.hh"
#include "icon.hh"
#include "iterator.hh"
#include "kdb.hh"
#include "kdbx.hh"
#include "key.hh"
#include "metadata.hh"
#include "stream.hh"
#include "util.hh"

#include <nlohmann/json.hpp>

using json = nlohmann::json;
using namespace keepass;

typedef std::string str;

// ---------------------------------------------------------------- time conversions
// The C library's, but in parallel runs the thread is interrupted between a conversion and the use of its
// result, and a race detector sees what is written where.

#include <dlfcn.h>
#include <sched.h>
#include <atomic>

static std::atomic<bool> g_pause(false);

static void interrupted() {
  // Relaxed: a pause must not order the threads, or a race detector takes them for well-behaved.
  if (!g_pause.load(std::memory_order_relaxed)) return;
  static std::atomic<unsigned> n(0);
  for (unsigned i = n.fetch_add(1, std::memory_order_relaxed) % 3; i < 3; ++i) {
    struct timespec t = {0, 10000};
    nanosleep(&t, nullptr);
  }
}

template <typename F> static F real_fn(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
typedef struct tm* (*conv_r)(const time_t*, struct tm*);

static struct tm* convert(conv_r f, const time_t* t, struct tm* r) {
  struct tm v;
  struct tm* ok = f(t, &v);
  if (ok) *r = v;
  interrupted();
  return ok ? r : nullptr;
}

static struct tm g_tm;   // as in the C library: one for the process
extern "C" struct tm* localtime_r(const time_t* t, struct tm* r) noexcept {
  static const conv_r f = real_fn<conv_r>("localtime_r");
  return convert(f, t, r);
}
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept {
  static const conv_r f = real_fn<conv_r>("gmtime_r");
  return convert(f, t, r);
}
extern "C" struct tm* localtime(const time_t* t) noexcept {
  tzset();
  return localtime_r(t, &g_tm);
}
extern "C" struct tm* gmtime(const time_t* t) noexcept { return gmtime_r(t, &g_tm); }

// ---------------------------------------------------------------- compression and digests
// The libraries' own, which a race detector cannot look into: what they read and write is told to it here.

#include <openssl/aes.h>
#include <openssl/sha.h>
#include <zlib.h>

#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_read_range(void* p, unsigned long n);
extern "C" void __tsan_write_range(void* p, unsigned long n);
static void reads(const void* p, size_t n) { if (p && n) __tsan_read_range(const_cast<void*>(p), n); }
static void writes(void* p, size_t n) { if (p && n) __tsan_write_range(p, n); }
#else
static void reads(const void*, size_t) {}
static void writes(void*, size_t) {}
#endif

typedef int (*flate)(z_streamp, int);

static int pressed(flate f, z_streamp s, int how) {
  if (!s) return f(s, how);
  const Bytef* in = s->next_in;
  Bytef* out = s->next_out;
  writes(s, sizeof(*s));
  int rc = f(s, how);
  reads(in, static_cast<size_t>(s->next_in - in));
  writes(out, static_cast<size_t>(s->next_out - out));
  interrupted();
  return rc;
}

extern "C" int deflate(z_streamp s, int how) {
  static const flate f = real_fn<flate>("deflate");
  return pressed(f, s, how);
}
extern "C" int inflate(z_streamp s, int how) {
  static const flate f = real_fn<flate>("inflate");
  return pressed(f, s, how);
}
extern "C" int SHA256_Init(SHA256_CTX* c) {
  static const auto f = real_fn<int (*)(SHA256_CTX*)>("SHA256_Init");
  writes(c, sizeof(*c));
  return f(c);
}
extern "C" int SHA256_Update(SHA256_CTX* c, const void* p, size_t n) {
  static const auto f = real_fn<int (*)(SHA256_CTX*, const void*, size_t)>("SHA256_Update");
  reads(p, n);
  writes(c, sizeof(*c));
  return f(c, p, n);
}
extern "C" int SHA256_Final(unsigned char* d, SHA256_CTX* c) {
  static const auto f = real_fn<int (*)(unsigned char*, SHA256_CTX*)>("SHA256_Final");
  writes(c, sizeof(*c));
  writes(d, 32);
  int rc = f(d, c);
  interrupted();
  return rc;
}
typedef void (*aes_block)(const unsigned char*, unsigned char*, const AES_KEY*);
typedef int (*aes_set)(const unsigned char*, const int, AES_KEY*);

static void block(aes_block f, const unsigned char* in, unsigned char* out, const AES_KEY* k) {
  reads(in, 16);
  reads(k, sizeof(*k));
  writes(out, 16);
  f(in, out, k);
}
extern "C" void AES_encrypt(const unsigned char* in, unsigned char* out, const AES_KEY* k) {
  static const aes_block f = real_fn<aes_block>("AES_encrypt");
  block(f, in, out, k);
}
extern "C" void AES_decrypt(const unsigned char* in, unsigned char* out, const AES_KEY* k) {
  static const aes_block f = real_fn<aes_block>("AES_decrypt");
  block(f, in, out, k);
}
extern "C" int AES_set_encrypt_key(const unsigned char* in, const int bits, AES_KEY* k) {
  static const aes_set f = real_fn<aes_set>("AES_set_encrypt_key");
  reads(in, static_cast<size_t>(bits / 8));
  writes(k, sizeof(*k));
  return f(in, bits, k);
}
extern "C" int AES_set_decrypt_key(const unsigned char* in, const int bits, AES_KEY* k) {
  static const aes_set f = real_fn<aes_set>("AES_set_decrypt_key");
  reads(in, static_cast<size_t>(bits / 8));
  writes(k, sizeof(*k));
  return f(in, bits, k);
}

// ---------------------------------------------------------------- writes to files

#include <sys/syscall.h>
#include <sys/uio.h>
#include <cerrno>

static bool g_io_on = false;
static std::vector<str> g_io_plan;
static str g_io_rest;
static size_t g_io_hits = 0, g_io_calls = 0;

// How many of n bytes the device takes now, or -1.
static ssize_t io_answer(int fd, size_t n) {
  if (fd <= 2 || !g_io_on) return static_cast<ssize_t>(n);
  const str& a = g_io_calls < g_io_plan.size() ? g_io_plan[g_io_calls] : g_io_rest;
  ++g_io_calls;
  if (a == "part") return static_cast<ssize_t>((n + 1) / 2);
  if (a == "intr") { errno = EINTR; return -1; }
  if (a == "full") { ++g_io_hits; errno = ENOSPC; return -1; }
  if (a == "io") { ++g_io_hits; errno = EIO; return -1; }
  return static_cast<ssize_t>(n);
}

extern "C" ssize_t write(int fd, const void* p, size_t n) {
  ssize_t k = io_answer(fd, n);
  return k < 0 ? k : syscall(SYS_write, fd, p, static_cast<size_t>(k));
}

extern "C" ssize_t writev(int fd, const struct iovec* v, int c) {
  size_t n = 0;
  for (int i = 0; i < c; ++i) n += v[i].iov_len;
  ssize_t k = io_answer(fd, n);
  if (k < 0) return k;
  if (static_cast<size_t>(k) == n) return syscall(SYS_writev, fd, v, c);
  size_t left = static_cast<size_t>(k);
  ssize_t done = 0;
  for (int i = 0; i < c && left > 0; ++i) {
    size_t m = v[i].iov_len < left ? v[i].iov_len : left;
    ssize_t w = syscall(SYS_write, fd, v[i].iov_base, m);
    if (w < 0) return done ? done : w;
    done += w;
    if (static_cast<size_t>(w) < m) break;
    left -= m;
  }
  return done;
}

// ---------------------------------------------------------------- value encoding

static const char* kHex = "0123456789abcdef";

static str hex(const void* p, size_t n) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  str r;
  r.reserve(2 * n);
  for (size_t i = 0; i < n; ++i) {
    r.push_back(kHex[b[i] >> 4]);
    r.push_back(kHex[b[i] & 15]);
  }
  return r;
}
template <typename C> static str hexc(const C& c) {
  return c.empty() ? str() : hex(&*c.begin(), c.size());
}

static str unhex(const str& h) {
  if (h.size() % 2) throw std::runtime_error("driver: odd hex");
  str r;
  r.reserve(h.size() / 2);
  for (size_t i = 0; i < h.size(); i += 2)
    r.push_back(static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)));
  return r;
}

static bool g_full = false;

// Text form of a byte string: itself when short and plain, hexadecimal when short, otherwise
// length and digest.
static str enc(const str& s) {
  bool plain = true;
  for (unsigned char c : s)
    if (c < 0x20 || c > 0x7e || c == '\\' || c == '"') plain = false;
  if (!s.empty() && (s[0] == '#' || s[0] == '%' || s[0] == '@')) plain = false;
  if (g_full) return plain ? s : "%" + hexc(s);
  if (s.size() > 64) {
    uint8_t d[32];
    SHA256(reinterpret_cast<const uint8_t*>(s.data()), s.size(), d);
    return "#" + std::to_string(s.size()) + ":" + hex(d, 16);
  }
  return plain ? s : "%" + hexc(s);
}

static str pattern(size_t n, uint32_t seed) {
  str r;
  r.reserve(n);
  uint32_t x = seed * 2654435761u + 12345u;
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525u + 1013904223u;
    r.push_back(static_cast<char>(x >> 24));
  }
  return r;
}

static str dec(const str& s) {
  if (s.empty()) return s;
  if (s[0] == '%') return unhex(s.substr(1));
  if (s[0] == '@') {          // "@count:seed", pseudo-random bytes; "@count:xHH" one byte repeated
    size_t c = s.find(':');
    size_t n = std::stoul(s.substr(1, c - 1));
    str rest = s.substr(c + 1);
    if (rest[0] == 'x') return str(n, static_cast<char>(std::stoi(rest.substr(1), nullptr, 16)));
    return pattern(n, static_cast<uint32_t>(std::stoul(rest)));
  }
  if (s[0] == '#') throw std::runtime_error("driver: cannot decode digest");
  return s;
}

static str gs(const json& j, const char* k, const str& def = "") {
  auto it = j.find(k);
  if (it == j.end()) return def;
  return it->get<str>();
}
static str gd(const json& j, const char* k) { return dec(gs(j, k)); }
static bool gb(const json& j, const char* k) { return gs(j, k) == "true"; }
static uint64_t gu(const json& j, const char* k, const char* def = "0") {
  return std::stoull(gs(j, k, def));
}
static int64_t gi(const json& j, const char* k, const char* def = "0") {
  return std::stoll(gs(j, k, def));
}
template <size_t N> static std::array<uint8_t, N> arr(const str& h) {
  str b = unhex(h);
  if (b.size() != N) throw std::runtime_error("driver: bad array size");
  std::array<uint8_t, N> a;
  std::copy(b.begin(), b.end(), a.begin());
  return a;
}
static str sb(bool b) { return b ? "true" : "false"; }
template <typename T> static str sn(T v) { return std::to_string(v); }

static protect<str> dprot(const str& s) {
  if (s.size() < 2) throw std::runtime_error("driver: bad protected string");
  return protect<str>(dec(s.substr(2)), s[0] == 'P');
}
static str eprot(const protect<str>& p) {
  return str(p.is_protected() ? "P:" : "U:") + enc(*p);
}

// ---------------------------------------------------------------- building

struct Db {
  std::shared_ptr<Database> db;
  std::vector<std::shared_ptr<Group>> held_groups;    // keep detached targets alive
  std::vector<std::shared_ptr<Entry>> held_entries;
  std::vector<std::shared_ptr<Icon>> held_icons;
};

static std::shared_ptr<Icon> icon_ref(Db& d, const str& r) {
  if (r == "none" || r.empty()) return nullptr;
  if (r.compare(0, 2, "i:") == 0) return d.db->meta()->icons().at(std::stoul(r.substr(2)));
  if (r.compare(0, 9, "detached:") == 0) {
    auto i = std::make_shared<Icon>(arr<16>(r.substr(9)), std::vector<uint8_t>{1, 2, 3});
    d.held_icons.push_back(i);
    return i;
  }
  throw std::runtime_error("driver: bad icon reference " + r);
}

static void set_entry(Db& d, Entry& e, const str& k, const json& v);

static std::shared_ptr<Entry> build_entry(Db& d, const json& j) {
  auto e = std::make_shared<Entry>();
  for (auto it = j.begin(); it != j.end(); ++it) set_entry(d, *e, it.key(), it.value());
  return e;
}

static std::shared_ptr<Binary> build_bin(const json& j) {
  auto b = std::make_shared<Binary>(dprot(gs(j, "data")));
  b->set_compress(gb(j, "compress"));
  return b;
}

static std::shared_ptr<Entry::Attachment> build_att(Db& d, const json& j) {
  auto a = std::make_shared<Entry::Attachment>();
  a->set_name(gd(j, "name"));
  str b = gs(j, "bin");
  if (b.compare(0, 2, "b:") == 0) a->set_binary(d.db->meta()->binaries().at(std::stoul(b.substr(2))));
  else if (b == "own") a->set_binary(build_bin(j));
  return a;
}

static void set_entry(Db& d, Entry& e, const str& k, const json& v) {
  if (k == "hist") {
    for (auto& h : v) e.AddHistoryEntry(build_entry(d, h));
  } else if (k == "att") {
    for (auto& a : v) e.AddAttachment(build_att(d, a));
  } else if (k == "fields") {
    for (auto& f : v) {
      str key = gd(f, "k");
      e.AddCustomField(key, dprot(gs(f, "v")));
    }
  } else if (k == "auto") {
    e.auto_type().set_enabled(gb(v, "en"));
    e.auto_type().set_obfuscation(gu(v, "ob"));
    e.auto_type().set_sequence(gd(v, "seq"));
    for (auto& a : v.at("assoc")) e.auto_type().AddAssociation(gd(a, "w"), gd(a, "s"));
  } else {
    str s = v.get<str>();
    if (k == "uuid") { if (s != "auto") e.set_uuid(arr<16>(s)); }
    else if (k == "icon") e.set_icon(std::stoul(s));
    else if (k == "cicon") e.set_custom_icon(icon_ref(d, s));
    else if (k == "title") e.set_title(dprot(s));
    else if (k == "url") e.set_url(dprot(s));
    else if (k == "user") e.set_username(dprot(s));
    else if (k == "pass") e.set_password(dprot(s));
    else if (k == "notes") e.set_notes(dprot(s));
    else if (k == "ovr") e.set_override_url(dec(s));
    else if (k == "tags") e.set_tags(dec(s));
    else if (k == "bg") e.set_bg_color(dec(s));
    else if (k == "fg") e.set_fg_color(dec(s));
    else if (k == "ct") e.set_creation_time(std::stoll(s));
    else if (k == "mt") e.set_modification_time(std::stoll(s));
    else if (k == "at") e.set_access_time(std::stoll(s));
    else if (k == "et") e.set_expiry_time(std::stoll(s));
    else if (k == "lt") e.set_move_time(std::stoll(s));
    else if (k == "expires") e.set_expires(s == "true");
    else if (k == "usage") e.set_usage_count(std::stoul(s));
    else throw std::runtime_error("driver: bad entry field " + k);
  }
}

static void set_group(Db& d, Group& g, const str& k, const str& s) {
  if (k == "uuid") { if (s != "auto") g.set_uuid(arr<16>(s)); }
  else if (k == "icon") g.set_icon(std::stoul(s));
  else if (k == "cicon") g.set_custom_icon(icon_ref(d, s));
  else if (k == "name") g.set_name(dec(s));
  else if (k == "notes") g.set_notes(dec(s));
  else if (k == "ct") g.set_creation_time(std::stoll(s));
  else if (k == "mt") g.set_modification_time(std::stoll(s));
  else if (k == "at") g.set_access_time(std::stoll(s));
  else if (k == "et") g.set_expiry_time(std::stoll(s));
  else if (k == "lt") g.set_move_time(std::stoll(s));
  else if (k == "flags") g.set_flags(std::stoul(s));
  else if (k == "expires") g.set_expires(s == "true");
  else if (k == "expanded") g.set_expanded(s == "true");
  else if (k == "usage") g.set_usage_count(std::stoul(s));
  else if (k == "seq") g.set_default_autotype_sequence(dec(s));
  else if (k == "autotype") g.set_autotype(s == "true");
  else if (k == "search") g.set_search(s == "true");
  else if (k == "last") { /* second pass */ }
  else throw std::runtime_error("driver: bad group field " + k);
}

static std::shared_ptr<Group> build_group(Db& d, const json& j) {
  auto g = std::make_shared<Group>();
  for (auto it = j.begin(); it != j.end(); ++it) {
    if (it.key() == "groups") {
      for (auto& c : it.value()) g->AddGroup(build_group(d, c));
    } else if (it.key() == "entries") {
      for (auto& c : it.value()) g->AddEntry(build_entry(d, c));
    } else {
      set_group(d, *g, it.key(), it.value().get<str>());
    }
  }
  return g;
}

static std::shared_ptr<Group> group_at(const std::shared_ptr<Group>& root, const str& path) {
  std::shared_ptr<Group> g = root;
  std::stringstream ss(path);
  str part;
  while (std::getline(ss, part, '.'))
    if (!part.empty()) g = g->Groups().at(std::stoul(part));
  return g;
}
static std::shared_ptr<Entry> entry_at(const std::shared_ptr<Group>& root, const str& path) {
  size_t c = path.find('/');
  return group_at(root, path.substr(0, c))->Entries().at(std::stoul(path.substr(c + 1)));
}
static std::shared_ptr<Group> group_ref(Db& d, const str& r) {
  if (r == "none" || r.empty()) return nullptr;
  if (r.compare(0, 2, "g:") == 0) return group_at(d.db->root(), r.substr(2));
  if (r.compare(0, 9, "detached:") == 0) {
    auto g = std::make_shared<Group>();
    g->set_uuid(arr<16>(r.substr(9)));
    d.held_groups.push_back(g);
    return g;
  }
  throw std::runtime_error("driver: bad group reference " + r);
}
static std::shared_ptr<Entry> entry_ref(Db& d, const str& r) {
  if (r == "none" || r.empty()) return nullptr;
  if (r.compare(0, 2, "e:") == 0) return entry_at(d.db->root(), r.substr(2));
  if (r.compare(0, 9, "detached:") == 0) {
    auto g = std::make_shared<Entry>();
    g->set_uuid(arr<16>(r.substr(9)));
    d.held_entries.push_back(g);
    return g;
  }
  throw std::runtime_error("driver: bad entry reference " + r);
}
static void build_last(Db& d, const std::shared_ptr<Group>& g, const json& j) {
  str r = gs(j, "last", "none");
  if (r != "none") g->set_last_visible_entry(entry_ref(d, r));
  if (j.count("groups")) {
    size_t i = 0;
    for (auto& c : j.at("groups")) build_last(d, g->Groups().at(i++), c);
  }
}

static void set_meta(Db& d, Metadata& m, const str& k, const json& v) {
  if (k == "mp") {
    m.memory_protection().set_title(gb(v, "title"));
    m.memory_protection().set_username(gb(v, "user"));
    m.memory_protection().set_password(gb(v, "pass"));
    m.memory_protection().set_url(gb(v, "url"));
    m.memory_protection().set_notes(gb(v, "notes"));
    return;
  }
  if (k == "bins") {
    for (auto& b : v) m.AddBinary(build_bin(b));
    return;
  }
  if (k == "icons") {
    for (auto& b : v) {
      str data = gd(b, "data");
      m.AddIcon(std::make_shared<Icon>(arr<16>(gs(b, "uuid")),
                                       std::vector<uint8_t>(data.begin(), data.end())));
    }
    return;
  }
  if (k == "fields") {
    for (auto& b : v) m.AddField(gd(b, "k"), gd(b, "v"));
    return;
  }
  str s = v.get<str>();
  if (k == "gen") m.set_generator(dec(s));
  else if (k == "color") m.set_database_color(dec(s));
  else if (k == "mhd") m.set_maintenance_hist_days(std::stoul(s));
  else if (k == "mkc") m.set_master_key_changed(std::stoll(s));
  else if (k == "mkcr") m.set_master_key_change_rec(std::stoll(s));
  else if (k == "mkcf") m.set_master_key_change_force(std::stoll(s));
  else if (k == "rbt") m.set_recycle_bin_changed(std::stoll(s));
  else if (k == "tmplt") m.set_entry_templates_changed(std::stoll(s));
  else if (k == "hmi") m.set_history_max_items(std::stol(s));
  else if (k == "hms") m.set_history_max_size(std::stoll(s));
  else if (k == "rb") m.set_recycle_bin(group_ref(d, s));
  else if (k == "tmpl") m.set_entry_templates(group_ref(d, s));
  else if (k == "lsg") m.set_last_selected_group(group_ref(d, s));
  else if (k == "lvg") m.set_last_visible_group(group_ref(d, s));
  else if (k == "present") {}
  else throw std::runtime_error("driver: bad meta field " + k);
}

static Db build_db(const json& j) {
  Db d;
  d.db = std::make_shared<Database>();
  Database& db = *d.db;
  db.set_cipher(gs(j, "cipher", "aes") == "aes" ? Database::Cipher::kAes : Database::Cipher::kTwofish);
  if (j.count("mseed")) {
    str b = unhex(gs(j, "mseed"));
    db.set_master_seed(std::vector<uint8_t>(b.begin(), b.end()));
  }
  if (j.count("iv")) db.set_init_vector(arr<16>(gs(j, "iv")));
  if (j.count("tseed")) db.set_transform_seed(arr<32>(gs(j, "tseed")));
  if (j.count("rkey")) db.set_inner_random_stream_key(arr<32>(gs(j, "rkey")));
  if (j.count("rounds")) db.set_transform_rounds(gu(j, "rounds"));
  db.set_compress(gb(j, "compress"));
  const json* meta = nullptr;
  if (j.count("meta") && gs(j.at("meta"), "present", "true") == "true") {
    meta = &j.at("meta");
    auto m = std::make_shared<Metadata>();
    db.set_meta(m);
    const json& v = *meta;
    if (v.count("name")) m->set_database_name(temporal<str>(gd(v, "name"), gi(v, "namet")));
    if (v.count("desc")) m->set_database_desc(temporal<str>(gd(v, "desc"), gi(v, "desct")));
    if (v.count("user")) m->set_default_username(temporal<str>(gd(v, "user"), gi(v, "usert")));
    static const std::set<str> later = {"rb", "tmpl", "lsg", "lvg", "name", "namet", "desc", "desct", "user", "usert"};
    for (auto it = v.begin(); it != v.end(); ++it)
      if (!later.count(it.key())) set_meta(d, *m, it.key(), it.value());
  }
  if (j.count("root")) {
    db.set_root(build_group(d, j.at("root")));
    build_last(d, db.root(), j.at("root"));
  }
  if (meta)
    for (const char* k : {"rb", "tmpl", "lsg", "lvg"})
      if (meta->count(k)) set_meta(d, *db.meta(), k, meta->at(k));
  return d;
}

// ---------------------------------------------------------------- projection

struct Index {
  std::map<const Group*, str> groups;
  std::map<const Entry*, str> entries;
  std::map<const Icon*, str> icons;
  std::map<const Binary*, str> bins;
};

static void index_group(Index& x, const std::shared_ptr<Group>& g, const str& path) {
  x.groups.insert(std::make_pair(g.get(), "g:" + path));
  size_t i = 0;
  for (auto& e : g->Entries()) x.entries.insert(std::make_pair(e.get(), "e:" + path + "/" + sn(i++)));
  i = 0;
  for (auto& c : g->Groups()) index_group(x, c, path.empty() ? sn(i) : path + "." + sn(i)), ++i;
}

template <typename T>
static str ref(const std::map<const T*, str>& m, const std::shared_ptr<T>& p) {
  if (!p) return "none";
  auto it = m.find(p.get());
  if (it != m.end()) return it->second;
  return "detached:" + hexc(p->uuid());
}

static json proj_entry(const Index& x, Entry& e) {
  json j;
  j["uuid"] = hexc(e.uuid());
  j["icon"] = sn(e.icon());
  j["cicon"] = ref(x.icons, e.custom_icon().lock());
  j["title"] = eprot(e.title());
  j["url"] = eprot(e.url());
  j["user"] = eprot(e.username());
  j["pass"] = eprot(e.password());
  j["notes"] = eprot(e.notes());
  j["ovr"] = enc(e.override_url());
  j["tags"] = enc(e.tags());
  j["bg"] = enc(e.bg_color());
  j["fg"] = enc(e.fg_color());
  j["ct"] = sn(e.creation_time());
  j["mt"] = sn(e.modification_time());
  j["at"] = sn(e.access_time());
  j["et"] = sn(e.expiry_time());
  j["lt"] = sn(e.move_time());
  j["expires"] = sb(e.expires());
  j["usage"] = sn(e.usage_count());
  json a;
  a["en"] = sb(e.auto_type().enabled());
  a["ob"] = sn(e.auto_type().obfuscation());
  a["seq"] = enc(e.auto_type().sequence());
  a["assoc"] = json::array();
  for (auto& s : e.auto_type().associations())
    a["assoc"].push_back({{"w", enc(s.window())}, {"s", enc(s.sequence())}});
  j["auto"] = a;
  j["att"] = json::array();
  for (auto& t : e.attachments()) {
    json o;
    o["name"] = enc(t->name());
    auto b = t->binary();
    if (!b) {
      o["bin"] = "null"; o["data"] = "U:"; o["compress"] = "false";
    } else {
      auto it = x.bins.find(b.get());
      o["bin"] = it == x.bins.end() ? "own" : it->second;
      o["data"] = eprot(b->data());
      o["compress"] = sb(b->compress());
    }
    j["att"].push_back(o);
  }
  j["hist"] = json::array();
  for (auto& h : e.history()) j["hist"].push_back(proj_entry(x, *h));
  j["fields"] = json::array();
  for (auto& f : e.custom_fields())
    j["fields"].push_back({{"k", enc(f.key())}, {"v", eprot(f.value())}});
  return j;
}

static json proj_group(const Index& x, Group& g) {
  json j;
  j["uuid"] = hexc(g.uuid());
  j["icon"] = sn(g.icon());
  j["cicon"] = ref(x.icons, g.custom_icon().lock());
  j["name"] = enc(g.name());
  j["notes"] = enc(g.notes());
  j["ct"] = sn(g.creation_time());
  j["mt"] = sn(g.modification_time());
  j["at"] = sn(g.access_time());
  j["et"] = sn(g.expiry_time());
  j["lt"] = sn(g.move_time());
  j["flags"] = sn(g.flags());
  j["expires"] = sb(g.expires());
  j["expanded"] = sb(g.expanded());
  j["usage"] = sn(g.usage_count());
  j["seq"] = enc(g.default_autotype_sequence());
  j["autotype"] = sb(g.autotype());
  j["search"] = sb(g.search());
  j["last"] = ref(x.entries, g.last_visible_entry().lock());
  j["groups"] = json::array();
  for (auto& c : g.Groups()) j["groups"].push_back(proj_group(x, *c));
  j["entries"] = json::array();
  for (auto& c : g.Entries()) j["entries"].push_back(proj_entry(x, *c));
  return j;
}

static json project(const Database& db) {
  Index x;
  json j;
  if (db.meta()) {
    size_t i = 0;
    for (auto& c : db.meta()->icons()) x.icons.insert(std::make_pair(c.get(), "i:" + sn(i++)));
    i = 0;
    for (auto& c : db.meta()->binaries()) x.bins.insert(std::make_pair(c.get(), "b:" + sn(i++)));
  }
  if (db.root()) index_group(x, db.root(), "");
  j["cipher"] = db.cipher() == Database::Cipher::kAes ? "aes" : "twofish";
  j["mseed"] = hexc(db.master_seed());
  j["iv"] = hexc(db.init_vector());
  j["tseed"] = hexc(db.transform_seed());
  j["rkey"] = hexc(db.inner_random_stream_key());
  j["rounds"] = sn(db.transform_rounds());
  j["compress"] = sb(db.compress());
  json m;
  if (auto mm = db.meta()) {
    Metadata& t = *mm;
    m["present"] = "true";
    m["gen"] = enc(t.generator());
    m["name"] = enc(t.database_name().value());
    m["namet"] = sn(t.database_name().time());
    m["desc"] = enc(t.database_desc().value());
    m["desct"] = sn(t.database_desc().time());
    m["user"] = enc(t.default_username().value());
    m["usert"] = sn(t.default_username().time());
    m["mhd"] = sn(t.maintenance_hist_days());
    m["color"] = enc(t.database_color());
    m["mkc"] = sn(t.master_key_changed());
    m["mkcr"] = sn(t.master_key_change_rec());
    m["mkcf"] = sn(t.master_key_change_force());
    m["mp"] = {{"title", sb(t.memory_protection().title())},
               {"user", sb(t.memory_protection().username())},
               {"pass", sb(t.memory_protection().password())},
               {"url", sb(t.memory_protection().url())},
               {"notes", sb(t.memory_protection().notes())}};
    m["rb"] = ref(x.groups, t.recycle_bin());
    m["rbt"] = sn(t.recycle_bin_changed());
    m["tmpl"] = ref(x.groups, t.entry_templates());
    m["tmplt"] = sn(t.entry_templates_changed());
    m["hmi"] = sn(t.history_max_items());
    m["hms"] = sn(t.history_max_size());
    m["lsg"] = ref(x.groups, t.last_selected_group().lock());
    m["lvg"] = ref(x.groups, t.last_visible_group().lock());
    m["bins"] = json::array();
    for (auto& b : t.binaries())
      m["bins"].push_back({{"data", eprot(b->data())}, {"compress", sb(b->compress())}});
    m["icons"] = json::array();
    for (auto& c : t.icons())
      m["icons"].push_back({{"uuid", hexc(c->uuid())},
                            {"data", enc(str(c->data().begin(), c->data().end()))}});
    m["fields"] = json::array();
    for (auto& f : t.fields()) m["fields"].push_back({{"k", enc(f.key())}, {"v", enc(f.value())}});
  } else {
    m["present"] = "false";
  }
  j["meta"] = m;
  if (db.root()) j["root"] = proj_group(x, *db.root());
  else j["root"] = {{"absent", "true"}};
  return j;
}

// ---------------------------------------------------------------- outcomes

template <typename F> static str outcome(F f, str* what = nullptr) {
  try {
    f();
    return "ok";
  } catch (PasswordError& e) {
    if (what) *what = e.what();
    return "Password";
  } catch (FormatError& e) {
    if (what) *what = e.what();
    return "Format";
  } catch (FileNotFoundError& e) {
    if (what) *what = e.what();
    return "NotFound";
  } catch (IoError& e) {
    if (what) *what = e.what();
    return "Io";
  } catch (InternalError& e) {
    if (what) *what = e.what();
    return "Internal";
  } catch (std::bad_alloc& e) {
    if (what) *what = e.what();
    return "std:bad_alloc";
  } catch (std::exception& e) {
    if (what) *what = e.what();
    int st = 0;
    char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
    str r = str("std:") + (n ? n : "?");
    free(n);
    return r;
  } catch (...) {
    return "other";
  }
}

// A transparent "block cipher" for the CBC layer: byte-wise permutation x -> x*5+k+i, not an
// involution, trivially computed by the specification.
class ToyCipher final : public Cipher<16> {
  std::array<uint8_t, 16> iv_;
  uint8_t k_;
 public:
  ToyCipher(uint8_t k, const std::array<uint8_t, 16>& iv) : iv_(iv), k_(k) {}
  const std::array<uint8_t, 16>& InitializationVector() const override { return iv_; }
  void Encrypt(const std::array<uint8_t, 16>& s, std::array<uint8_t, 16>& d) const override {
    std::array<uint8_t, 16> t;
    for (size_t i = 0; i < 16; ++i) t[(i + 1) % 16] = static_cast<uint8_t>(s[i] * 5 + k_ + i);
    d = t;
  }
  void Decrypt(const std::array<uint8_t, 16>& s, std::array<uint8_t, 16>& d) const override {
    std::array<uint8_t, 16> t;
    for (size_t i = 0; i < 16; ++i)
      t[i] = static_cast<uint8_t>((s[(i + 1) % 16] - k_ - i) * 205);
    d = t;
  }
};

static std::unique_ptr<Cipher<16>> make_cipher(const json& j) {
  str kind = gs(j, "cipher");
  std::array<uint8_t, 16> iv = arr<16>(gs(j, "iv", "00000000000000000000000000000000"));
  if (kind == "toy") return std::unique_ptr<Cipher<16>>(new ToyCipher(std::stoi(gs(j, "key")), iv));
  std::array<uint8_t, 32> key = arr<32>(gs(j, "key"));
  if (kind == "aes") return std::unique_ptr<Cipher<16>>(new AesCipher(key, iv));
  if (kind == "twofish") return std::unique_ptr<Cipher<16>>(new TwofishCipher(key, iv));
  throw std::runtime_error("driver: bad cipher");
}

// Streams that refuse output after a number of bytes.
class LimitBuf : public std::streambuf {
 public:
  str data;
  size_t limit;
  explicit LimitBuf(size_t n) : limit(n) {}
 protected:
  int overflow(int c) override {
    if (c == EOF) return EOF;
    if (data.size() >= limit) return EOF;
    data.push_back(static_cast<char>(c));
    return c & 0xff;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    size_t k = std::min<size_t>(n, limit - data.size());
    data.append(s, k);
    return k;
  }
};

// A source that hands out bytes in small pieces (short reads never shorten istream::read).
class ChunkIn : public std::streambuf {
  str data_;
  size_t pos_ = 0, n_;
  char buf_[4096];
 public:
  ChunkIn(const str& d, size_t n) : data_(d), n_(std::min<size_t>(n ? n : 4096, 4096)) {}
 protected:
  int underflow() override {
    if (gptr() < egptr()) return std::char_traits<char>::to_int_type(*gptr());
    size_t k = std::min(n_, data_.size() - pos_);
    if (!k) return EOF;
    memcpy(buf_, data_.data() + pos_, k);
    pos_ += k;
    setg(buf_, buf_, buf_ + k);
    return std::char_traits<char>::to_int_type(*gptr());
  }
};

// Reads everything with the given read sizes (0 = character by character); returns how it ended.
static json read_all(std::istream& in, const json& sizes) {
  str got, end;
  str what;
  str oc = outcome([&]() {
    in.exceptions(std::ios::badbit);
    size_t k = 0;
    std::vector<size_t> sz;
    for (auto& s : sizes) sz.push_back(std::stoul(s.get<str>()));
    if (sz.empty()) sz.push_back(65536);
    std::vector<char> buf;
    for (;;) {
      size_t n = sz[k++ % sz.size()];
      if (n == 0) {
        int c = in.get();
        if (c == EOF) break;
        got.push_back(static_cast<char>(c));
        continue;
      }
      buf.resize(n);
      in.read(buf.data(), n);
      got.append(buf.data(), in.gcount());
      if (!in.good()) break;
    }
  }, &what);
  json r;
  r["out"] = oc;
  r["data"] = enc(got);
  r["len"] = sn(got.size());
  r["_raw"] = hexc(got.size() > 4096 ? str() : got);
  return r;
}

// ---------------------------------------------------------------- commands

// The objects of a thread; other threads than the main one may also use (not change) those of the main one.
struct State {
  std::map<str, Db> db;
  std::map<str, Key> key;
  std::map<str, std::unique_ptr<KdbFile>> kdb;
  std::map<str, std::unique_ptr<KdbxFile>> kdbx;
};
static State g_main;
static thread_local State* g_st = &g_main;
#define g_db (g_st->db)
#define g_key (g_st->key)
#define g_kdb (g_st->kdb)
#define g_kdbx (g_st->kdbx)

static Db& db_of(const json& j, const char* k = "h") {
  for (State* s : {g_st, &g_main}) {
    auto it = s->db.find(gs(j, k));
    if (it != s->db.end()) return it->second;
  }
  throw std::runtime_error("driver: no such database");
}
static Key& key_of(const json& j) {
  for (State* s : {g_st, &g_main}) {
    auto it = s->key.find(gs(j, "k"));
    if (it != s->key.end()) return it->second;
  }
  throw std::runtime_error("driver: no such key");
}

static void key_step(Key& k, const json& s) {
  str op = gs(s, "op");
  if (op == "pw") k.SetPassword(gd(s, "v"));
  else if (op == "kf") k.SetKeyFile(gs(s, "v"));
  else throw std::runtime_error("driver: bad key step");
}

static json run(const json& j) {
  str c = gs(j, "c");
  json r = json::object();
  if (c == "ping") {
  } else if (c == "full") {
    g_full = gb(j, "v");
  } else if (c == "new") {
    str h = gs(j, "h");
    g_db.erase(h);
    g_db[h] = build_db(j.at("db"));
    if (gs(j, "proj", "true") == "true") r["proj"] = project(*g_db[h].db);
  } else if (c == "proj") {
    r["proj"] = project(*db_of(j).db);
  } else if (c == "drop") {
    g_db.erase(gs(j, "h"));
  } else if (c == "reset") {
    g_db.clear(); g_key.clear(); g_kdb.clear(); g_kdbx.clear();
  } else if (c == "edit") {
    // Edits an object of a database in place through the public setters.
    Db& d = db_of(j);
    str t = gs(j, "t"), p = gs(j, "p"), f = gs(j, "f");
    const json& v = j.at("v");
    if (t == "entry") set_entry(d, *entry_at(d.db->root(), p), f, v);
    else if (t == "group") {
      auto g = group_at(d.db->root(), p);
      if (f == "addgroup") g->AddGroup(build_group(d, v));
      else if (f == "addentry") g->AddEntry(build_entry(d, v));
      else if (f == "last") g->set_last_visible_entry(entry_ref(d, v.get<str>()));
      else set_group(d, *g, f, v.get<str>());
    } else if (t == "meta") {
      Metadata& m = *d.db->meta();
      if (f == "name") m.set_database_name(temporal<str>(dec(v.get<str>()), m.database_name().time()));
      else if (f == "desc") m.set_database_desc(temporal<str>(dec(v.get<str>()), m.database_desc().time()));
      else if (f == "user") m.set_default_username(temporal<str>(dec(v.get<str>()), m.default_username().time()));
      else set_meta(d, m, f, v);
    } else if (t == "bin") {
      auto b = d.db->meta()->binaries().at(std::stoul(p));
      if (f == "data") b->set_data(dprot(v.get<str>()));
      else b->set_compress(v.get<str>() == "true");
    } else if (t == "db") {
      Database& db = *d.db;
      str s = v.get<str>();
      if (f == "compress") db.set_compress(s == "true");
      else if (f == "rounds") db.set_transform_rounds(std::stoull(s));
      else if (f == "cipher") db.set_cipher(s == "aes" ? Database::Cipher::kAes : Database::Cipher::kTwofish);
      else if (f == "iv") db.set_init_vector(arr<16>(s));
      else if (f == "tseed") db.set_transform_seed(arr<32>(s));
      else if (f == "rkey") db.set_inner_random_stream_key(arr<32>(s));
      else if (f == "mseed") {
        str b = unhex(s);
        if (b.size() == 16) {
          std::array<uint8_t, 16> a;
          std::copy(b.begin(), b.end(), a.begin());
          db.set_master_seed(a);
        } else db.set_master_seed(std::vector<uint8_t>(b.begin(), b.end()));
      } else throw std::runtime_error("driver: bad db field");
    } else throw std::runtime_error("driver: bad edit");
    r["proj"] = project(*d.db);
  } else if (c == "key") {
    // Makes a key and applies steps; a failed step is reported and the key kept.
    str k = gs(j, "k");
    if (!j.count("keep") || !g_key.count(k)) {
      g_key.erase(k);
      if (j.count("ctor")) g_key.insert(std::make_pair(k, Key(gd(j, "ctor"))));
      else g_key.insert(std::make_pair(k, Key()));
    }
    r["outs"] = json::array();
    if (j.count("steps"))
      for (auto& s : j.at("steps"))
        r["outs"].push_back(outcome([&]() { key_step(g_key.at(k), s); }));
  } else if (c == "transform") {
    str t;
    r["out"] = outcome([&]() {
      t = hexc(key_of(j).Transform(arr<32>(gs(j, "seed")), gu(j, "rounds"),
          gs(j, "mode") == "kdbx" ? Key::SubKeyResolution::kHashSubKeys
                                  : Key::SubKeyResolution::kHashSubKeysOnlyIfCompositeKey));
    });
    r["key"] = t;
  } else if (c == "export") {
    str o = gs(j, "o", "_");
    str what;
    Db& d = db_of(j);
    Key& k = key_of(j);
    bool ro = false;
    (void)ro;
    if (gs(j, "fmt") == "kdbx") {
      auto& f = g_kdbx[o];
      if (!f || o == "_") f.reset(new KdbxFile());
      r["out"] = outcome([&]() { f->Export(gs(j, "path"), *d.db, k); }, &what);
    } else {
      auto& f = g_kdb[o];
      if (!f || o == "_") f.reset(new KdbFile());
      r["out"] = outcome([&]() { f->Export(gs(j, "path"), *d.db, k); }, &what);
    }
    r["what"] = what;
    if (gs(j, "proj", "false") == "true") r["proj"] = project(*d.db);
  } else if (c == "import") {
    str o = gs(j, "o", "_"), h = gs(j, "h");
    str what;
    Key& k = key_of(j);
    std::unique_ptr<Database> db;
    if (gs(j, "fmt") == "kdbx") {
      auto& f = g_kdbx[o];
      if (!f || o == "_") f.reset(new KdbxFile());
      r["out"] = outcome([&]() { db = f->Import(gs(j, "path"), k); }, &what);
    } else {
      auto& f = g_kdb[o];
      if (!f || o == "_") f.reset(new KdbFile());
      r["out"] = outcome([&]() { db = f->Import(gs(j, "path"), k); }, &what);
    }
    r["what"] = what;
    if (db) {
      Db d;
      d.db = std::shared_ptr<Database>(db.release());
      g_db.erase(h);
      g_db[h] = d;
      if (gs(j, "proj", "true") == "true") r["proj"] = project(*d.db);
    } else if (r["out"] == "ok") {
      r["out"] = "null";
    }
  } else if (c == "exercise") {
    // Uses an imported database as a caller would: dump, compare, save in both formats.
    Db& d = db_of(j);
    Key& k = key_of(j);
    if (d.db->root()) {
      r["json"] = outcome([&]() { (void)d.db->root()->ToJson(); });
      r["eq"] = sb(*d.db->root() == *d.db->root());
    }
    if (gs(j, "fmt") == "kdbx") {
      KdbxFile f;
      r["save"] = outcome([&]() { f.Export(gs(j, "path"), *d.db, k); });
    } else {
      KdbFile f;
      r["save"] = outcome([&]() { f.Export(gs(j, "path"), *d.db, k); });
    }
  } else if (c == "json") {
    Db& d = db_of(j);
    str p = gs(j, "p");
    str t = p.find('/') == str::npos ? group_at(d.db->root(), p)->ToJson()
                                     : entry_at(d.db->root(), p)->ToJson();
    r["hex"] = hexc(t);
  } else if (c == "meta") {
    Db& d = db_of(j);
    str p = gs(j, "p");
    if (p.find('/') == str::npos) r["v"] = sb(group_at(d.db->root(), p)->HasNonMetaEntries());
    else {
      r["v"] = sb(entry_at(d.db->root(), p)->IsMetaEntry());
      r["att"] = sb(entry_at(d.db->root(), p)->HasAttachment());
      r["auto"] = sb(entry_at(d.db->root(), p)->HasNonDefaultAutoTypeSettings());
    }
  } else if (c == "eq") {
    // Compares objects of two databases (a: handle+path, b: handle+path).
    Db& a = db_of(j, "h");
    Db& b = db_of(j, "h2");
    str t = gs(j, "t"), p = gs(j, "p"), q = gs(j, "p2");
    bool e1, n1, e2, n2;
    auto cmp = [&](auto& x, auto& y) { e1 = x == y; n1 = x != y; e2 = y == x; n2 = y != x; };
    if (t == "group") cmp(*group_at(a.db->root(), p), *group_at(b.db->root(), q));
    else if (t == "entry") cmp(*entry_at(a.db->root(), p), *entry_at(b.db->root(), q));
    else if (t == "auto") cmp(entry_at(a.db->root(), p)->auto_type(), entry_at(b.db->root(), q)->auto_type());
    else if (t == "att") cmp(*entry_at(a.db->root(), p)->attachments().at(0), *entry_at(b.db->root(), q)->attachments().at(0));
    else if (t == "bin") cmp(*a.db->meta()->binaries().at(0), *b.db->meta()->binaries().at(0));
    else if (t == "icon") cmp(*a.db->meta()->icons().at(0), *b.db->meta()->icons().at(0));
    else if (t == "field") cmp(entry_at(a.db->root(), p)->custom_fields().at(0), entry_at(b.db->root(), q)->custom_fields().at(0));
    else throw std::runtime_error("driver: bad eq");
    r["eq"] = sb(e1); r["ne"] = sb(n1); r["eqr"] = sb(e2); r["ner"] = sb(n2);
  } else if (c == "hashw") {
    str lim = gs(j, "limit");
    LimitBuf lb(lim.empty() ? SIZE_MAX : std::stoul(lim));
    std::ostream dst(&lb);
    str what;
    bool ok = true;
    r["out"] = outcome([&]() {
      std::unique_ptr<hashed_ostreambuf> hb(
          gs(j, "bs").empty() ? new hashed_ostreambuf(dst) : new hashed_ostreambuf(dst, gu(j, "bs")));
      std::ostream out(hb.get());
      for (auto& ch : j.at("chunks")) {
        str s = dec(ch.get<str>());
        if (s.size() == 1) out.put(s[0]); else out.write(s.data(), s.size());
      }
      out.flush();
      ok = out.good();
    }, &what);
    if (r["out"] == "ok" && !ok) r["out"] = "failed";
    r["hex"] = hexc(lb.data);
  } else if (c == "hashr") {
    ChunkIn ci(unhex(gs(j, "hex")), std::stoul(gs(j, "feed", "4096")));
    std::istream src(&ci);
    hashed_istreambuf hb(src);
    std::istream in(&hb);
    r = read_all(in, j.at("sizes"));
  } else if (c == "gzw") {
    str lim = gs(j, "limit");
    LimitBuf lb(lim.empty() ? SIZE_MAX : std::stoul(lim));
    std::ostream dst(&lb);
    bool ok = true;
    r["out"] = outcome([&]() {
      gzip_ostreambuf hb(dst);
      std::ostream out(&hb);
      for (auto& ch : j.at("chunks")) {
        str s = dec(ch.get<str>());
        if (s.size() == 1) out.put(s[0]); else out.write(s.data(), s.size());
      }
      out.flush();
      ok = out.good();
    });
    if (r["out"] == "ok" && !ok) r["out"] = "failed";
    r["hex"] = hexc(lb.data);
  } else if (c == "gzr") {
    ChunkIn ci(unhex(gs(j, "hex")), std::stoul(gs(j, "feed", "4096")));
    std::istream src(&ci);
    gzip_istreambuf hb(src);
    std::istream in(&hb);
    r = read_all(in, j.at("sizes"));
  } else if (c == "gzhashw" || c == "gzhashr") {
    // The two layers composed as in a file.
    if (c == "gzhashw") {
      std::stringstream dst;
      hashed_ostreambuf hb(dst, gu(j, "bs"));
      std::ostream hout(&hb);
      {
        gzip_ostreambuf gb(hout);
        std::ostream out(&gb);
        for (auto& ch : j.at("chunks")) {
          str s = dec(ch.get<str>());
          out.write(s.data(), s.size());
        }
        out.flush();
      }
      hout.flush();
      r["hex"] = hexc(dst.str());
    } else {
      std::stringstream src(unhex(gs(j, "hex")));
      hashed_istreambuf hb(src);
      std::istream hin(&hb);
      gzip_istreambuf gb(hin);
      std::istream in(&gb);
      r = read_all(in, j.at("sizes"));
    }
  } else if (c == "cbc") {
    auto ci = make_cipher(j);
    str data = j.count("hex") ? unhex(gs(j, "hex")) : gd(j, "data");
    std::stringstream src(data);
    src.seekg(gu(j, "skip"));
    str lim = gs(j, "limit");
    LimitBuf lb(lim.empty() ? SIZE_MAX : std::stoul(lim));
    std::ostream dst(&lb);
    bool d = gs(j, "dir") == "dec";
    r["out"] = outcome([&]() { d ? decrypt_cbc(src, dst, *ci) : encrypt_cbc(src, dst, *ci); });
    r["good"] = sb(dst.good());
    r["hex"] = hexc(lb.data);
  } else if (c == "ecb") {
    auto ci = make_cipher(j);
    bool d = gs(j, "dir") == "dec";
    auto a = arr<32>(gs(j, "hex"));
    r["hex"] = hexc(d ? decrypt_ecb(a, *ci) : encrypt_ecb(a, *ci));
  } else if (c == "block") {
    auto ci = make_cipher(j);
    r["blocks"] = json::array();
    for (auto& o : j.at("ops")) {
      std::array<uint8_t, 16> s = arr<16>(gs(o, "hex")), t{};
      bool alias = gs(o, "alias") == "true";
      if (gs(o, "dir") == "dec") ci->Decrypt(s, alias ? s : t); else ci->Encrypt(s, alias ? s : t);
      r["blocks"].push_back(hexc(alias ? s : t));
    }
  } else if (c == "salsa") {
    Salsa20Cipher s(arr<32>(gs(j, "key")), arr<8>(gs(j, "iv")));
    r["blocks"] = json::array();
    for (auto& o : j.at("src")) {
      std::array<uint8_t, 64> a = arr<64>(o.get<str>()), t{};
      s.Process(a, t);
      r["blocks"].push_back(hexc(t));
    }
  } else if (c == "b64e") {
    str d = unhex(gs(j, "hex"));
    str a = base64_encode(d);
    std::vector<uint8_t> v(d.begin(), d.end());
    str b = base64_encode(v.begin(), v.end());
    std::stringstream ss(d);
    str e = base64_encode(std::istreambuf_iterator<char>(ss), std::istreambuf_iterator<char>());
    r["text"] = a == b && a == e ? a : "!differs";
  } else if (c == "b64d") {
    str d;
    str txt = unhex(gs(j, "hex"));
    r["out"] = outcome([&]() { d = base64_decode(txt); });
    r["hex"] = hexc(d);
    std::vector<uint8_t> v;
    str o2 = outcome([&]() { base64_decode(txt, std::back_inserter(v)); });
    r["same"] = sb(o2 == r["out"] && (o2 != "ok" || hexc(v) == hexc(d)));
  } else if (c == "b64f") {
    // Fixed-size destination with guard bytes.
    struct { std::array<uint8_t, 16> before; std::array<uint8_t, 8> dst; std::array<uint8_t, 16> after; } m;
    m.before.fill(0xa5); m.dst.fill(0xee); m.after.fill(0x5a);
    str txt = unhex(gs(j, "hex"));
    r["out"] = outcome([&]() { base64_decode(txt, bounds_checked(m.dst)); });
    r["hex"] = hexc(m.dst);
    bool ok = true;
    for (auto b : m.before) ok = ok && b == 0xa5;
    for (auto b : m.after) ok = ok && b == 0x5a;
    r["guard"] = sb(ok);
  } else if (c == "uuids") {
    r["v"] = json::array();
    size_t n = gu(j, "n");
    for (size_t i = 0; i < n; ++i) {
      switch (i % 3) {
        case 0: r["v"].push_back(hexc(generate_uuid())); break;
        case 1: { Entry e; r["v"].push_back(hexc(e.uuid())); break; }
        default: { Group g; r["v"].push_back(hexc(g.uuid())); break; }
      }
    }
  } else if (c == "forks") {
    // One identifier from each of many processes that have drawn nothing before.
    r["v"] = json::array();
    size_t n = gu(j, "n"), started = 0, got = 0, running = 0;
    int fds[2];
    if (pipe(fds) != 0) throw std::runtime_error("driver: no pipe");
    while (got < n) {
      while (started < n && running < 4) {
        pid_t p = fork();
        if (p == 0) {
          std::array<uint8_t, 16> id;
          if (started % 2) { Entry e; id = e.uuid(); } else { Group g; id = g.uuid(); }
          _exit(syscall(SYS_write, fds[1], id.data(), id.size()) == 16 ? 0 : 1);
        }
        if (p < 0) throw std::runtime_error("driver: no process");
        ++started;
        ++running;
      }
      int st = 0;
      if (waitpid(-1, &st, 0) > 0) --running;
      if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) throw std::runtime_error("driver: process without identifier");
      std::array<uint8_t, 16> id;
      if (read(fds[0], id.data(), id.size()) != 16) throw std::runtime_error("driver: no identifier");
      r["v"].push_back(hexc(id));
      ++got;
    }
    close(fds[0]);
    close(fds[1]);
  } else if (c == "tz") {
    setenv("TZ", gs(j, "v").c_str(), 1);
    tzset();
  } else if (c == "timestr") {
    r["v"] = time_to_str(static_cast<std::time_t>(gi(j, "t")));
  } else if (c == "fsize") {
    struct rlimit rl;
    getrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = gs(j, "n") == "inf" ? rl.rlim_max : std::stoul(gs(j, "n"));
    setrlimit(RLIMIT_FSIZE, &rl);
  } else if (c == "iofault") {
    // How the next calls that write to files are answered; without a plan: as they are.
    r["hits"] = sn(g_io_hits);
    r["calls"] = sn(g_io_calls);
    g_io_on = j.count("plan") > 0;
    g_io_plan.clear();
    g_io_hits = g_io_calls = 0;
    if (g_io_on) {
      for (auto& x : j.at("plan")) g_io_plan.push_back(x.get<str>());
      g_io_rest = gs(j, "rest", "all");
    }
  } else if (c == "setuid") {
    r["rc"] = sn(seteuid(std::stoul(gs(j, "u"))));
  } else {
    throw std::runtime_error("driver: unknown command " + c);
  }
  return r;
}

// Runs several lists of commands at the same time, each in a thread of its own; they start together.
static json parallel(const json& j) {
  const json& lanes = j.at("lanes");
  size_t n = lanes.size();
  std::vector<std::vector<json>> out(n);
  std::atomic<size_t> ready(0);
  std::vector<std::thread> threads;
  for (size_t i = 0; i < n; ++i) {
    threads.emplace_back([&, i]() {
      State own;
      g_st = &own;
      ++ready;
      while (ready.load() < n) std::this_thread::yield();
      g_pause.store(n > 1, std::memory_order_relaxed);
      for (auto& c : lanes[i]) {
        try {
          out[i].push_back(run(c));
        } catch (std::exception& e) {
          json r = json::object();
          r["driver_error"] = str(e.what());
          out[i].push_back(r);
        }
      }
    });
  }
  for (auto& t : threads) t.join();
  g_pause = false;
  json r = json::object();
  r["lanes"] = json::array();
  for (auto& o : out) r["lanes"].push_back(o);
  return r;
}

// The C++ locale of a program that wants its numbers grouped.
struct Grouped : std::numpunct<char> {
  char do_thousands_sep() const override { return '.'; }
  char do_decimal_point() const override { return ','; }
  std::string do_grouping() const override { return "\3"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};

int main() {
  if (getenv("KP_LOCALE") && str(getenv("KP_LOCALE")) == "grouped")
    std::locale::global(std::locale(std::locale::classic(), new Grouped));
  signal(SIGXFSZ, SIG_IGN);
  std::ios::sync_with_stdio(false);
  str line;
  while (std::getline(std::cin, line)) {
    json r;
    try {
      json j = json::parse(line);
      r = gs(j, "c") == "par" ? parallel(j) : run(j);
    } catch (std::exception& e) {
      r = json::object();
      r["driver_error"] = str(e.what());
    }
    std::cout << r.dump(-1, ' ', false, json::error_handler_t::replace) << "\n" << std::flush;
  }
  return 0;
}
