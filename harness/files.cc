#include "world.h"
#include "gals/utilities/file-utils.h"
using GALS::UTILITIES::FileUtils;
PROBE void fu_make(FileUtils* f) { new (f) FileUtils(); }
PROBE void fu_set(FileUtils* f, const std::string* s) { f->setRootDirectory(*s); }
PROBE void fu_get(const FileUtils* f, std::string* s) { new (s) std::string(f->getRootDirectory()); }
PROBE void fu_str(std::string* s) { new (s) std::string(); }
PROBE bool fu_exists(const FileUtils* f, const std::string* s) { return f->fileExists(*s); }
PROBE bool fu_rmfile(const FileUtils* f, const std::string* s) { return f->removeFile(*s); }
PROBE bool fu_mkdir(const FileUtils* f, const std::string* s) { return f->createDirectory(*s); }
PROBE bool fu_rmdir(const FileUtils* f, const std::string* s) { return f->removeDirectory(*s); }
#define W(d) \
PROBE void fu_ws_##d(FileUtils* f, const std::string* s, const Array<G<d>, double>* a) { f->write(*s, *a); } \
PROBE void fu_wv_##d(FileUtils* f, const std::string* s, const Array<G<d>, Vec3<double>>* a) { f->write(*s, *a); }
W(1) W(2) W(3)
