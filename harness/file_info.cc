// Executable statement of C25: source form from the file name.
#include "common.hh"
#include "flpr/File_Info.hh"

using FLPR::File_Info;
using FLPR::File_Type;
using namespace hz;

namespace {
void c25(Case const &c) {
  if (c.s.size() != 1)
    throw Skip();
  std::string const &s = c.s[0];
  std::string ext;
  bool dot = false;
  for (char ch : s) {
    if (ch == '.') {
      dot = true;
      ext.clear();
    } else
      ext += ch;
  }
  File_Type want = File_Type::UNKNOWN;
  if (dot && (ext == "f" || ext == "F"))
    want = File_Type::FIXEDFMT;
  if (dot && (ext == "f90" || ext == "F90"))
    want = File_Type::FREEFMT;
  std::streambuf *old = std::cerr.rdbuf(nullptr);
  struct Back {
    std::streambuf *b;
    ~Back() { std::cerr.rdbuf(b); }
  } back{old};
  eq("form", (int)FLPR::file_type_from_extension(s), (int)want);
  File_Info a(s);
  eq("form of a file", (int)a.file_type, (int)want);
  eq("name of a file", a.filename, s);
  eq("column limit", a.last_fixed_column, 0);
  for (File_Type t : {File_Type::FIXEDFMT, File_Type::FREEFMT}) {
    File_Info b(s, t);
    eq("form asked for", (int)b.file_type, (int)t);
    eq("name of a file", b.filename, s);
  }
}

void en(std::function<void(Case const &)> const &f) {
  static char const *A[] = {"", "a", "f", "F", "f90", "F90", ".", "/", "f9",
                            "95", "0", " "};
  for (auto a : A)
    for (auto b : A)
      for (auto d : A)
        for (auto e : A) {
          Case c;
          c.s.push_back(std::string(a) + b + d + e);
          f(c);
        }
}
Case rnd(Rng &r) {
  Case c;
  std::string s;
  int n = r.range(0, 12);
  for (int k = 0; k < n; ++k)
    s += r.chance(70) ? "..fF90/ab "[r.below(10)] : (char)r.below(256);
  c.s.push_back(s);
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C25"] = {c25, en, rnd,
                    "every name of up to 4 of 12 pieces, then random names"};
  return run(argc, argv);
}
