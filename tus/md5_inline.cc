// Emits the inline members of MD5 that no library translation unit uses.
#include "utils/md5.h"
namespace google {
namespace service_control_client {
void EmitMd5Inline(MD5* m, int d, const char* s, const std::string& t) {
  m->Update(d);
  m->Update(s);
  m->Update(t);
}
}  // namespace service_control_client
}  // namespace google
