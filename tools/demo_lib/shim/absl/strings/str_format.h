// Small stand-in for absl/strings/str_format.h: printf-like formatting with %v
// and AbslStringify, without allocation in SNPrintF.  The installed abseil
// predates both.  Formats only feed logs and statistics text.
#ifndef VERIF_SHIM_STR_FORMAT_H_
#define VERIF_SHIM_STR_FORMAT_H_
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <type_traits>
#include "absl/base/config.h"
#include "absl/strings/string_view.h"
namespace absl {
namespace verif_fmt {
struct Sink {
  char* buf;
  size_t cap;
  size_t len = 0;
  std::string* str = nullptr;
#if defined(VERIF_SIM) && !defined(VERIF_FMT_IMPL)
  void Append(absl::string_view s);
  void Append(size_t n, char c);
#else
  __attribute__((used, noinline)) void Append(absl::string_view s) {
    if (str) {
      str->append(s.data(), s.size());
      return;
    }
    for (size_t i = 0; i < s.size(); ++i) {
      if (len + i + 1 < cap) buf[len + i] = s[i];
    }
    len += s.size();
  }
  __attribute__((used, noinline)) void Append(size_t n, char c) {
    for (size_t i = 0; i < n; ++i) Append(absl::string_view(&c, 1));
  }
#endif
};
struct Arg {
  enum K { kI, kU, kD, kS, kP, kC, kB, kX } k;
  union {
    long long i;
    unsigned long long u;
    double d;
    const void* p;
    struct {
      const char* s;
      size_t n;
    } sv;
  };
  void (*fn)(Sink&, const void*) = nullptr;
  bool is32 = false;
};
struct StrSink {  // what AbslStringify sees
  Sink* s;
  void Append(absl::string_view v) { s->Append(v); }
  void Append(size_t n, char c) { s->Append(n, c); }
};
template <typename T, typename = void>
struct HasStringify : std::false_type {};
template <typename T>
struct HasStringify<T, std::void_t<decltype(AbslStringify(
                           std::declval<StrSink&>(), std::declval<const T&>()))>>
    : std::true_type {};
template <typename T>
Arg Make(const T& v) {
  Arg a;
  if constexpr (HasStringify<T>::value) {
    a.k = Arg::kX;
    a.p = &v;
    a.fn = [](Sink& s, const void* p) {
      StrSink ss{&s};
      AbslStringify(ss, *static_cast<const T*>(p));
    };
  } else if constexpr (std::is_same_v<T, bool>) {
    a.k = Arg::kB;
    a.i = v;
  } else if constexpr (std::is_same_v<T, char>) {
    a.k = Arg::kC;
    a.i = v;
  } else if constexpr (std::is_enum_v<T>) {
    return Make(static_cast<std::underlying_type_t<T>>(v));
  } else if constexpr (std::is_floating_point_v<T>) {
    a.k = Arg::kD;
    a.d = v;
  } else if constexpr (std::is_integral_v<T>) {
    if constexpr (std::is_signed_v<T>) {
      a.k = Arg::kI;
      a.i = v;
    } else {
      a.k = Arg::kU;
      a.u = v;
    }
    a.is32 = sizeof(T) <= 4;
  } else if constexpr (std::is_convertible_v<const T&, absl::string_view>) {
    absl::string_view s;
    if constexpr (std::is_convertible_v<const T&, const char*>) {
      const char* c = v;
      s = c ? absl::string_view(c) : absl::string_view("(null)");
    } else {
      s = v;
    }
    a.k = Arg::kS;
    a.sv.s = s.data();
    a.sv.n = s.size();
  } else if constexpr (std::is_pointer_v<T>) {
    a.k = Arg::kP;
    a.p = (const void*)v;
  } else if constexpr (std::is_convertible_v<const T&, unsigned long long>) {
    a.k = Arg::kU;
    a.u = static_cast<unsigned long long>(v);
  } else {
    // Only reached by messages of failed checks; the value is not shown.
    a.k = Arg::kS;
    a.sv.s = "?";
    a.sv.n = 1;
  }
  return a;
}
#if defined(VERIF_SIM) && !defined(VERIF_FMT_IMPL)
void Run(Sink& s, absl::string_view f, const Arg* args, size_t n);  // sim/fmt.cc
#else
inline void Pad(Sink& s, absl::string_view v, int width, bool left) {
  size_t w = width > 0 ? width : 0;
  size_t pad = v.size() < w ? w - v.size() : 0;
  if (!left) s.Append(pad, ' ');
  s.Append(v);
  if (left) s.Append(pad, ' ');
}
__attribute__((used, noinline)) inline void Run(Sink& s, absl::string_view f, const Arg* args, size_t n) {
  size_t ai = 0;
  for (size_t i = 0; i < f.size();) {
    if (f[i] != '%') {
      size_t j = f.find('%', i);
      if (j == absl::string_view::npos) j = f.size();
      s.Append(f.substr(i, j - i));
      i = j;
      continue;
    }
    if (i + 1 < f.size() && f[i + 1] == '%') {
      s.Append("%");
      i += 2;
      continue;
    }
    char spec[32];
    size_t sn = 0;
    spec[sn++] = '%';
    ++i;
    bool left = false;
    int width = 0, prec = -1;
    while (i < f.size() && strchr("-+ #0", f[i])) {
      if (f[i] == '-') left = true;
      if (sn < 8) spec[sn++] = f[i];
      ++i;
    }
    if (i < f.size() && f[i] == '*') {
      width = ai < n ? (int)args[ai++].i : 0;
      ++i;
    } else {
      while (i < f.size() && f[i] >= '0' && f[i] <= '9')
        width = width * 10 + (f[i++] - '0');
    }
    if (i < f.size() && f[i] == '.') {
      ++i;
      prec = 0;
      if (i < f.size() && f[i] == '*') {
        prec = ai < n ? (int)args[ai++].i : 0;
        ++i;
      } else {
        while (i < f.size() && f[i] >= '0' && f[i] <= '9')
          prec = prec * 10 + (f[i++] - '0');
      }
    }
    while (i < f.size() && strchr("hlLqjzt", f[i])) ++i;
    char c = i < f.size() ? f[i++] : 's';
    if (ai >= n) {
      s.Append("<missing>");
      continue;
    }
    const Arg& a = args[ai++];
    char tmp[400];
    int r = 0;
    if (width) sn += snprintf(spec + sn, 12, "%d", width);
    auto num = [&](const char* mod, char cc) {
      char sp[48];
      if (prec >= 0)
        snprintf(sp, sizeof sp, "%.*s.%d%s%c", (int)sn, spec, prec, mod, cc);
      else
        snprintf(sp, sizeof sp, "%.*s%s%c", (int)sn, spec, mod, cc);
      if (cc == 'f' || cc == 'g' || cc == 'e') {
        double d = a.k == Arg::kD ? a.d : a.k == Arg::kU ? (double)a.u : (double)a.i;
        r = snprintf(tmp, sizeof tmp, sp, d);
      } else {
        unsigned long long u = a.u;
        if (a.is32 && (cc == 'x' || cc == 'X' || cc == 'u' || cc == 'o'))
          u = (uint32_t)u;
        r = snprintf(tmp, sizeof tmp, sp, u);
      }
      if (r < 0) r = 0;
      if (r >= (int)sizeof tmp) r = sizeof tmp - 1;
      s.Append(absl::string_view(tmp, r));
    };
    switch (a.k) {
      case Arg::kX:
        a.fn(s, a.p);
        break;
      case Arg::kS: {
        absl::string_view v(a.sv.s, a.sv.n);
        if (prec >= 0 && v.size() > (size_t)prec) v = v.substr(0, prec);
        Pad(s, v, width, left);
        break;
      }
      case Arg::kP:
        r = snprintf(tmp, sizeof tmp, "0x%llx",
                     (unsigned long long)(uintptr_t)a.p);
        Pad(s, absl::string_view(tmp, r), width, left);
        break;
      case Arg::kC:
        if (c == 'c' || c == 'v') {
          char ch = (char)a.i;
          Pad(s, absl::string_view(&ch, 1), width, left);
        } else {
          num("ll", c);
        }
        break;
      case Arg::kB:
        if (c == 'v' || c == 's')
          Pad(s, a.i ? "true" : "false", width, left);
        else
          num("ll", c);
        break;
      case Arg::kD:
        num("", (c == 'v' || !strchr("feEgGaF", c)) ? 'g' : c);
        break;
      case Arg::kI:
        if (strchr("feEgG", c)) num("", 'f');
        else if (c == 'c') { char ch = (char)a.i; s.Append(absl::string_view(&ch, 1)); }
        else num("ll", (c == 'v' || c == 's' || c == 'u') ? 'd' : c);
        break;
      case Arg::kU:
        if (strchr("feEgG", c)) num("", 'f');
        else if (c == 'c') { char ch = (char)a.i; s.Append(absl::string_view(&ch, 1)); }
        else num("ll", (c == 'v' || c == 's' || c == 'd') ? 'u' : c);
        break;
    }
  }
}
#endif
}  // namespace verif_fmt

namespace verif_fmt {
template <typename... A>
void Do(Sink& s, absl::string_view f, const A&... a) {
  Arg args[sizeof...(A) + 1] = {Make(a)...};
  Run(s, f, args, sizeof...(A));
}
struct Fmt {
  absl::string_view s;
  Fmt(const char* c) : s(c) {}         // NOLINT
  Fmt(absl::string_view c) : s(c) {}   // NOLINT
  Fmt(const std::string& c) : s(c) {}  // NOLINT
};
template <typename... A>
struct SpecFor {
  using type = Fmt;
};
}  // namespace verif_fmt
template <typename... Args>
using FormatSpec = typename verif_fmt::SpecFor<Args...>::type;

template <typename... A>
int SNPrintF(char* out, std::size_t size, verif_fmt::Fmt f, const A&... a) {
  verif_fmt::Sink s{out, size};
  verif_fmt::Do(s, f.s, a...);
  if (size) out[s.len < size ? s.len : size - 1] = 0;
  return (int)s.len;
}
template <typename... A>
std::string StrFormat(verif_fmt::Fmt f, const A&... a) {
  std::string r;
  verif_fmt::Sink s{nullptr, 0};
  s.str = &r;
  verif_fmt::Do(s, f.s, a...);
  return r;
}
template <typename... A>
std::string& StrAppendFormat(std::string* d, verif_fmt::Fmt f, const A&... a) {
  verif_fmt::Sink s{nullptr, 0};
  s.str = d;
  verif_fmt::Do(s, f.s, a...);
  return *d;
}
template <typename... A>
bool Format(verif_fmt::StrSink* d, verif_fmt::Fmt f, const A&... a) {
  verif_fmt::Do(*d->s, f.s, a...);
  return true;
}
template <typename S, typename... A,
          typename = std::enable_if_t<!std::is_same_v<S, verif_fmt::StrSink>>>
bool Format(S* d, verif_fmt::Fmt f, const A&... a) {
  char b[512];
  int n = SNPrintF(b, sizeof b, f, a...);
  d->Append(absl::string_view(b, n < 511 ? n : 511));
  return true;
}
template <typename... A>
int FPrintF(FILE* o, verif_fmt::Fmt f, const A&... a) {
  std::string s = StrFormat(f, a...);
  fwrite(s.data(), 1, s.size(), o);
  return (int)s.size();
}
template <typename... A>
int PrintF(verif_fmt::Fmt f, const A&... a) { return FPrintF(stdout, f, a...); }
}  // namespace absl
#endif
