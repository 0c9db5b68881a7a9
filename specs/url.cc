// URL components, parameters, and whole URLs: what is composed is parsed back, for every text.
#include "irv_std.h"
#include "blocks/url/url.h"
#include <sstream>
namespace {
using X = current::url::impl::URLParametersExtractor;
bool hexd(uint8_t c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
uint8_t hexv(uint8_t c) { return static_cast<uint8_t>(c - '0' - 7 * (c >= 'A') - 32 * (c >= 'a')); }
// Characters with a meaning in a query string, or which cannot be part of an URL.
bool meaning(uint8_t c) {
  return (c == '%') | (c == '+') | (c == '&') | (c == '=') | (c == '#') | (c == '?') | (c == '/') | (c == '"') | (c == '<') | (c == '>') | (c <= 32) | (c >= 127);
}
uint8_t at(const std::string& s, uint64_t i) { return irv_str_at(&s, i); }
// The `l` bytes of `e` from `p` on stand for the byte `c`.
bool stands_for(const std::string& e, uint64_t p, uint64_t l, uint8_t c) {
  const uint8_t e0 = at(e, p), e1 = at(e, p + 1), e2 = at(e, p + 2);
  return ((l == 1) & (e0 == c) & (c != '%') & (c != '+')) | ((l == 1) & (e0 == '+') & (c == ' ')) |
         ((l == 3) & (e0 == '%') & hexd(e1) & hexd(e2) & (static_cast<uint8_t>(16 * hexv(e1) + hexv(e2)) == c));
}
// The contract of IsURIComponentSpecialCharacter, proved below.
bool plain(char ch) {
  const uint8_t c = static_cast<uint8_t>(ch);
  return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '-') | (c == '_') | (c == '.') | (c == '~') | (c == '!') | (c == '\'') | (c == '(') | (c == ')');
}
bool hex_digit(char c) { return hexd(static_cast<uint8_t>(c)); }
void by_contract() {
#ifdef IRV_SYMBOLIC
  irv_replace("IsURIComponentSpecialCharacter", reinterpret_cast<void*>(plain));
  irv_replace("URLParametersExtractor::IsHexDigit", reinterpret_cast<void*>(hex_digit));
#endif
}
#ifdef IRV_SYMBOLIC
struct Cut {
  const std::string* s = nullptr;
  uint64_t n = 0, k = 0, j = 0, p = 0, l = 0, was = 0, was_k = 0;
  bool havocked = false;
};
uint64_t& position(const Cut&) { return irv::local<uint64_t>("i"); }
std::ostringstream& out(const char* name) { return irv::local<std::ostringstream>(name); }
void arbitrary_output(const char* name, uint64_t len) {
  std::string t;
  irv_any_string_n(&t, len);
  out(name).str(t);
}
#endif
}  // namespace

IRV_HARNESS(character_classes) {
  const char c = static_cast<char>(irv::any<uint8_t>());
  irv_check_aux(X::IsHexDigit(c) == hex_digit(c), "the hexadecimal digits");
  irv_check(!X::IsURIComponentSpecialCharacter(c) || !meaning(static_cast<uint8_t>(c)), "a character which is not encoded has no meaning in an URL");
  irv_check_aux(X::IsURIComponentSpecialCharacter(c) == plain(c), "the characters which are not encoded");
  irv_cover("end");
}

// Every byte of the text is encoded in its place, by bytes without a meaning in an URL, and nothing else is written.
IRV_HARNESS(encode_component) {
  std::string s;
#ifdef IRV_SYMBOLIC
  irv::any_string(s);
  Cut w;
  w.s = &s;
  w.n = irv_str_len(&s);
  w.j = irv_ghost_bits(64);  // any byte of the text
  irv_assume(w.j < w.n);
  by_contract();
  irv_loop("EncodeURIComponent", 0, reinterpret_cast<void*>(+[](void* q) {
             Cut& w = *static_cast<Cut*>(q);
             w.k = irv_ghost_bits(64);
             irv_assume(w.k <= w.n);
             const uint64_t len = irv_ghost_bits(64);
             irv_assume(len < (1ull << 40));
             w.p = irv_ghost_bits(64);
             w.l = irv_ghost_bits(64);
             arbitrary_output("encoded", len);
             irv::local<const char*>("__begin*|it|cit") = w.s->data() + w.k;
             w.was_k = w.k;
             w.was = len;
             w.havocked = true;
           }), reinterpret_cast<void*>(+[](void* q) -> bool {
             Cut& w = *static_cast<Cut*>(q);
             const std::string e = out("encoded").str();
             const uint64_t len = irv_str_len(&e), k = static_cast<uint64_t>(irv::local<const char*>("__begin*|it|cit") - w.s->data());
             if (w.havocked && irv_decide(k != w.was_k)) {
               irv_check(k == w.was_k + 1, "one byte at a time is encoded");
               if (irv_decide(w.was_k == w.j)) { w.p = w.was; w.l = len - w.was; }
             }
             const bool written = w.j < k;
             bool ok = (k <= w.n) & ((k != 0) | (len == 0));
             ok = ok & (!written | ((w.p < (1ull << 41)) & (w.l <= 3) & (w.p + w.l <= len) & stands_for(e, w.p, w.l, at(*w.s, w.j)) & !(((w.l == 1) & meaning(at(e, w.p))))));
             ok = ok & ((k != w.j + 1) | (w.p + w.l == len)) & (!((w.j == 0) & written) | (w.p == 0));
             return ok;
           }), &w);
  const std::string e = X::EncodeURIComponent(s);
  irv_check(stands_for(e, w.p, w.l, at(s, w.j)), "every byte is encoded in its place");
  irv_check(w.p + w.l <= irv_str_len(&e), "every byte is encoded in its place");
  irv_check(w.j != 0 || w.p == 0, "nothing is written before the first byte");
  irv_check(w.j + 1 != w.n || w.p + w.l == irv_str_len(&e), "nothing is written after the last byte");
  irv_check(w.l == 3 || !meaning(at(e, w.p)), "no byte with a meaning in an URL is written as it is");
#endif
  irv_cover("end");
}

// Where every position of the text has been encoded in its place, decoding gives the text, whatever its length.
IRV_HARNESS(decode_component) {
#ifdef IRV_SYMBOLIC
  std::string e;
  irv::any_string(e);
  Cut w;
  w.s = &e;
  w.n = irv_ghost_bits(64);  // the number of bytes encoded
  w.j = irv_ghost_bits(64);  // any of them
  irv_assume(w.n <= irv_str_len(&e) && w.j < w.n);
  struct Given {
    static uint64_t pos(uint64_t k) { return irv_uf("pos", k, 0, 0); }
    static uint8_t chr(uint64_t k) { return static_cast<uint8_t>(irv_uf("chr", k, 0, 0)); }
    static void facts(const std::string& e, uint64_t n, uint64_t k) {
      const uint64_t len = irv_str_len(&e);
      irv_assume((k != 0) | (pos(k) == 0));
      irv_assume((k != n) | (pos(k) == len));
      if (irv_decide(k < n)) irv_assume((pos(k) < pos(k + 1)) & (pos(k + 1) <= len) & stands_for(e, pos(k), pos(k + 1) - pos(k), chr(k)));
    }
  };
  Given::facts(e, w.n, 0);
  by_contract();
  irv_loop("DecodeURIComponent", 0, reinterpret_cast<void*>(+[](void* q) {
             Cut& w = *static_cast<Cut*>(q);
             w.k = irv_ghost_bits(64);
             irv_assume(w.k <= w.n);
             Given::facts(*w.s, w.n, w.k);
             Given::facts(*w.s, w.n, w.k + 1);
             arbitrary_output("decoded", w.k);
             irv::local<uint64_t>("i") = Given::pos(w.k);
             w.was_k = w.k;
             w.havocked = true;
           }), reinterpret_cast<void*>(+[](void* q) -> bool {
             Cut& w = *static_cast<Cut*>(q);
             const std::string d = out("decoded").str();
             const uint64_t k = irv_str_len(&d);
             if (w.havocked && irv_decide(k != w.was_k)) irv_check(k == w.was_k + 1, "one byte at a time is decoded");
             return (k <= w.n) & (irv::local<uint64_t>("i") == Given::pos(k)) & (!(w.j < k) | (at(d, w.j) == Given::chr(w.j)));
           }), &w);
  const std::string d = X::DecodeURIComponent(e);
  irv_check(irv_str_len(&d) == w.n, "decoding gives as many bytes as were encoded");
  irv_check(at(d, w.j) == Given::chr(w.j), "decoding gives the bytes which were encoded");
#endif
  irv_cover("end");
}
// Any text at all can be decoded: nothing outside of it is read, and nothing is thrown.
IRV_HARNESS(decode_anything) {
#ifdef IRV_SYMBOLIC
  std::string e;
  irv::any_string(e);
  Cut w;
  w.s = &e;
  by_contract();
  irv_loop("DecodeURIComponent", 0, reinterpret_cast<void*>(+[](void* q) {
             Cut& w = *static_cast<Cut*>(q);
             const uint64_t i = irv_ghost_bits(64), len = irv_ghost_bits(64);
             irv_assume((i <= irv_str_len(w.s)) & (len <= i));
             irv::local<uint64_t>("i") = i;
             arbitrary_output("decoded", len);
           }), reinterpret_cast<void*>(+[](void* q) -> bool {
             Cut& w = *static_cast<Cut*>(q);
             const std::string d = out("decoded").str();
             return (irv::local<uint64_t>("i") <= irv_str_len(w.s)) & (irv_str_len(&d) <= irv::local<uint64_t>("i"));
           }), &w);
  bool threw = false;
  try {
    const std::string d = X::DecodeURIComponent(e);
    irv_check(irv_str_len(&d) <= irv_str_len(&e), "decoding does not make a text longer");
  } catch (...) {
    threw = true;
  }
  irv_check(!threw, "every text can be decoded");
#endif
  irv_cover("end");
}
// All texts of up to two bytes, without the help of contracts.
IRV_HARNESS(bounded_component) {
  std::string s;
#ifdef IRV_SYMBOLIC
  irv::any_string(s, 2);
  by_contract();
#else
  irv::any_string(s, 12);
#endif
  const std::string e = X::EncodeURIComponent(s), d = X::DecodeURIComponent(e);
  irv_check(d == s, "decoding an encoded text gives the text");
  for (uint64_t i = 0; i < e.size(); ++i) irv_check(e[i] == '%' || !meaning(static_cast<uint8_t>(e[i])), "no byte with a meaning in an URL is written as it is");
  irv_cover("end");
}
IRV_HARNESS(bounded_decode) {
  std::string s;
  irv::any_string(s, 4);
  std::string d;
  try {
    d = X::DecodeURIComponent(s);
  } catch (...) {
    irv_fail("every text can be decoded");
  }
  irv_check(d.size() <= s.size(), "decoding does not make a text longer");
  irv_cover("end");
}

namespace {
using current::url::URL;
#ifdef IRV_SYMBOLIC
// Text of any length without any of the given characters.
std::string text_without(const char* chars, uint64_t least) {
  std::string s;
  irv::any_string(s, 1ull << 20);
  irv_assume(irv_str_len(&s) >= least);
  irv_none_in(&s, 0, 1ull << 40, chars);
  return s;
}
void same_text(const std::string& a, const std::string& b, const char* what) {
  irv_check(irv_str_len(&a) == irv_str_len(&b), what);
  const uint64_t i = irv_ghost_bits(64);  // any position
  irv_assume(i < irv_str_len(&a));
  irv_check(at(a, i) == at(b, i), what);
}
#endif
}  // namespace
// Host and path of any length: the parser finds them.
template <bool PATH>
void parse_url() {
#ifdef IRV_SYMBOLIC
  const std::string host = text_without(":/@?#", 1);
  std::string path;
  std::string u = "http://";
  u += host;
  const uint64_t n3 = irv_str_len(&u);
  if (PATH) {
    path = text_without("?#", 1);
    irv_assume(at(path, 0) == '/');
    u += path;
  }
  for (uint64_t x : {uint64_t(4), uint64_t(5), uint64_t(6), uint64_t(7), n3, irv_str_len(&u)}) at(u, x);  // the positions of interest
  bool threw = false;
  URL v;
  try {
    v = URL(u);
  } catch (...) {
    threw = true;
  }
  irv_check(!threw, "a URL is parsed");
  irv_check(v.scheme == "http", "the scheme is parsed");
  same_text(v.host, host, "the host is parsed");
  if (PATH) same_text(v.path, path, "the path is parsed"); else irv_check(v.path == "/", "the path is parsed");
  irv_check(v.username.empty() & v.password.empty(), "there is no user name or password");
  irv_check(v.fragment.empty() & v.parameters_vector.empty() & (v.port == 0), "there is no port, fragment, or parameter");
#endif
  irv_cover("end");
}
IRV_HARNESS(parse_host) { parse_url<false>(); }
IRV_HARNESS(parse_host_path) { parse_url<true>(); }

namespace {
// A piece of an URL of `n` bytes (natively up to six more), none of which is in `chars`.
std::string piece(uint64_t n, const char* chars) {
  std::string s;
  if (!irv_symbolic()) n += irv::any<uint8_t>() % 7;
  for (uint64_t i = 0; i < n; ++i) {
    const char c = irv::any<char>();
    bool ok = true;
    for (const char* p = chars; *p; ++p) ok &= c != *p;
    irv_assume(ok);
    s += c;
  }
  return s;
}
enum { SCHEME = 1, USER = 2, PASS = 4, PORT = 8, PATH = 16, FRAGMENT = 32, PARAMS = 64 };
template <int PARTS>
void parse_parts() {
  std::string u, scheme, user, pass, path, fragment;
  if (PARTS & SCHEME) scheme = piece(3, ":/@?#");
  const std::string host = piece(3, ":/@?#");
  uint16_t port = 0;
  u = ((PARTS & SCHEME) ? scheme + "://" : std::string("//"));
  if (PARTS & USER) {
    user = piece(1, ":/@?#");
    u += user;
    if (PARTS & PASS) {
      pass = piece(2, "/@?#");
      u += ':' + pass;
    }
    u += '@';
  }
  u += host;
  if (PARTS & PORT) {
    port = 0;
    u += ':';
    for (int i = 0; i < 4; ++i) {
      const uint8_t d = irv::any<uint8_t>();
      irv_assume(d <= 9);
      port = static_cast<uint16_t>(port * 10 + d);
      u += static_cast<char>('0' + d);
    }
  }
  if (PARTS & PATH) {
    path = '/' + piece(4, "?#");
    u += path;
  }
  std::string key, value;
  if (PARTS & PARAMS) {
    by_contract();
    key = piece(1, "");
    value = piece(1, "");
    u += '?' + URL::EncodeURIComponent(key) + '=' + URL::EncodeURIComponent(value) + "&" + URL::EncodeURIComponent(value);
  }
  if (PARTS & FRAGMENT) {
    fragment = piece(2, "");
    u += '#' + fragment;
  }
  for (int again = 0; again < 2; ++again) {
    URL v;
    try {
      v = URL(u);
    } catch (...) {
      irv_fail("an URL is parsed");
    }
    if (PARTS & SCHEME) irv_check(v.scheme == scheme, "the scheme is parsed");
    irv_check(v.host == host, "the host is parsed");
    irv_check(v.path == ((PARTS & PATH) ? path : std::string("/")), "the path is parsed");
    irv_check(v.username == user, "the user name is parsed");
    irv_check(v.password == pass, "the password is parsed");
    irv_check(v.fragment == fragment, "the fragment is parsed");
    irv_check(v.port == port || (again && port == URL::DefaultPortForScheme(v.scheme)), "the port is parsed");
    if (PARTS & PARAMS) {
      irv_check(v.parameters_vector.size() == 2, "the parameters are parsed");
      irv_check(v.parameters_vector[0].first == key && v.parameters_vector[0].second == value, "the parameters are parsed");
      irv_check(v.parameters_vector[1].first == value && v.parameters_vector[1].second.empty(), "the parameters are parsed");
      irv_check(v.query.has(key) && v.query[key] == value && v.query.has(value) && (key == value || v.query[value].empty()), "the parameters are found");
    } else {
      irv_check(v.parameters_vector.empty(), "there are no parameters");
    }
    if (PARTS & PASS) irv_assume(!pass.empty());
    u = v.ComposeURL();
  }
  irv_cover("end");
}
}  // namespace
IRV_HARNESS(bounded_host_path) { parse_parts<SCHEME | PATH>(); }
IRV_HARNESS(bounded_no_scheme) { parse_parts<PATH>(); }
IRV_HARNESS(bounded_port) { parse_parts<SCHEME | PORT | PATH>(); }
IRV_HARNESS(bounded_user) { parse_parts<SCHEME | USER | PATH>(); }
IRV_HARNESS(bounded_user_pass) { parse_parts<SCHEME | USER | PASS | PORT | PATH>(); }
IRV_HARNESS(bounded_fragment) { parse_parts<SCHEME | PATH | FRAGMENT>(); }
IRV_HARNESS(bounded_params) { parse_parts<SCHEME | PARAMS>(); }
// The path of an URL with no host.
IRV_HARNESS(bounded_relative) {
  const std::string path = '/' + piece(irv_symbolic() ? 5 : 0, "?#");
  irv_assume(path.size() < 2 || path[1] != '/');
  const URL v(path);
  irv_check(v.path == path, "the path is parsed");
  irv_check(v.host.empty() && v.scheme.empty() && v.username.empty() && v.port == 0, "there is no host");
  irv_check(v.ComposeURL() == path, "it is composed again");
  irv_cover("end");
}
