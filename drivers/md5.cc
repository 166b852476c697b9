// Replay driver for C31: the digest helper against OpenSSL's one-shot MD5.
#include "common.h"
#include <openssl/md5.h>
#include "utils/md5.h"

using namespace vd;
typedef google::service_control_client::MD5 Md5;

static std::string Ref(const std::string& s) {
  unsigned char d[16];
  ::MD5(reinterpret_cast<const unsigned char*>(s.data()), s.size(), d);
  return std::string(reinterpret_cast<char*>(d), 16);
}
static std::string Bytes() {
  static const std::vector<int> len = {0, 1, 2, 3, 55, 56, 57, 63, 64, 65, 119, 120, 128, 200, 5000};
  std::string s;
  int n = Coin(70) ? R(0, 20) : Pick(len);
  bool zero = Coin(40);
  for (int i = 0; i < n; i++) s += (char)(zero && Coin() ? 0 : R(0, 255));
  return s;
}
static std::string Hex(const std::string& s) {
  std::string r;
  for (unsigned char c : s) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; }
  return r;
}

static void OneCase() {
  CaseReset();
  Arm();
  Md5 h;
  std::string all;
  for (int n = R(0, 8); n > 0; n--) {
    std::string b = Bytes();
    switch (R(0, 4)) {
      case 0: Case("Update(data," + std::to_string(b.size()) + ") " + Hex(b)); h.Update(b.data(), b.size()); all += b; break;
      case 1: Case("Update(string) " + Hex(b)); h.Update(b); all += b; break;
      case 2: {
        std::string c = b.c_str();
        Case("Update(char*) " + Hex(c));
        h.Update(c.c_str());
        all += c;
        break;
      }
      case 3: {
        int d = (int)Rng()();
        Case("Update(int) " + std::to_string(d));
        h.Update(d);
        all.append(reinterpret_cast<char*>(&d), sizeof d);
        break;
      }
      case 4: {
        Md5& r = h.Update(b.data(), b.size()).Update(b);
        Case("Update chained " + Hex(b));
        all += b + b;
        VCHECK(&r == &h, "Update does not return the hasher");
        break;
      }
    }
  }
  std::string want = Ref(all), got = h.Digest();
  VCHECK(got.size() == 16, "digest of " << got.size() << " bytes");
  VCHECK(got == want, "digest is not the MD5 of the concatenated input");
  for (int n = R(1, 3); n > 0; n--) VCHECK(h.Digest() == want, "asking again returns another digest");
  VCHECK(Md5::DebugString(want) == Hex(want), "printable form is not the lowercase hexadecimal: " << Md5::DebugString(want));
  std::string other = Bytes();
  other.resize(16, (char)R(0, 255));
  VCHECK(Md5::DebugString(other) == Hex(other), "printable form is not the lowercase hexadecimal: " << Md5::DebugString(other));
  std::string b = Bytes();
  Case("one shot " + Hex(b));
  VCHECK(Md5()(b.data(), b.size()) == Ref(b), "one-shot digest differs from MD5");
  Evaluated(CaseHash(), all.size() > 0);
}

int main(int argc, char** argv) {
  Init(argc, argv);
  Rule() = "input fed in up to eight pieces through every Update overload, not all empty";
  while (!TimeUp()) OneCase();
  Stats();
  return 0;
}
