// Running one of the command line tools inside the harness: its main is renamed to tool_main, standard input and output are
// replaced by memory, and files it maps are handed out as heap copies of exactly their size, so that reading past the end is seen.
#pragma once
#include "vh.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <map>
extern "C" {
int tool_main(int argc, const char *argv[]);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
bool tool_rawmap = false;
static std::map<void *, size_t> *maps;
void *__wrap_mmap(void *a, size_t n, int prot, int flags, int fd, off_t o)
{
	if (fd < 0 || !n || tool_rawmap || o) return __real_mmap(a, n, prot, flags, fd, o);
	struct stat st;
	if (fstat(fd, &st) < 0 || !S_ISREG(st.st_mode)) return __real_mmap(a, n, prot, flags, fd, o);
	char *p = (char *)malloc(n); size_t k = 0;
	while (k < n) { ssize_t r = pread(fd, p + k, n - k, k); if (r <= 0) break; k += r; }
	memset(p + k, 0, n - k);
	if (!maps) maps = new std::map<void *, size_t>;
	(*maps)[p] = n;
	return p;
}
int __wrap_munmap(void *p, size_t n)
{
	if (maps && maps->count(p)) { if ((*maps)[p] != n) vh::fail("unmapping %zu bytes of a mapping of %zu", n, (*maps)[p]); maps->erase(p); free(p); return 0; }
	return __real_munmap(p, n);
}
}
namespace tool {
struct Out { std::string s; int ret; };
inline std::string dir;
inline void spit(const std::string &f, const std::string &s) { FILE *o = fopen(f.c_str(), "wb"); if (!o) vh::fail("cannot write %s", f.c_str()); fwrite(s.data(), 1, s.size(), o); fclose(o); }
inline Out run(const std::vector<std::string> &args, const std::string *in = nullptr, bool pipes = false)
{
	std::vector<const char *> av{"tool"}; for (auto &a : args) av.push_back(a.c_str()); av.push_back(nullptr);
	FILE *so = stdout, *si = stdin; char *buf = nullptr; size_t n = 0;
	FILE *mo = open_memstream(&buf, &n), *mi = nullptr;
	if (in && pipes) {
		int fd[2]; if (pipe(fd)) vh::fail("pipe");
		if (!fork()) { close(fd[0]); size_t k = 0; while (k < in->size()) { size_t part = std::min<size_t>(in->size() - k, 1 + k % 97); ssize_t w = write(fd[1], in->data() + k, part); if (w <= 0) break; k += w; } _exit(0); }
		close(fd[1]); mi = fdopen(fd[0], "rb");
	} else { static std::string none; const std::string &s = in ? *in : none; mi = s.empty() ? fopen("/dev/null", "rb") : fmemopen((void *)s.data(), s.size(), "rb"); }
	fflush(so);
	stdout = mo; stdin = mi;
	int r = tool_main((int)av.size() - 1, av.data());
	stdout = so; stdin = si;
	fclose(mo); fclose(mi);
	if (pipes && in) { int st; while (waitpid(-1, &st, WNOHANG) > 0); }
	Out o{std::string(buf, n), r}; free(buf);
	if (maps) { for (auto &m : *maps) free(m.first); maps->clear(); }
	return o;
}
// a directory of this process
inline void setup()
{
	const char *t = getenv("VH_TMP"); dir = std::string(t ? t : "/tmp") + "/w" + std::to_string(getpid());
	mkdir(dir.c_str(), 0777);
	if (chdir(dir.c_str())) vh::fail("chdir %s", dir.c_str());
}
inline std::string diff(const std::string &got, const std::string &want)
{
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	size_t b = i > 40 ? i - 40 : 0;
	return "prints '" + vh::esc(got.substr(b, 120)) + "' where '" + vh::esc(want.substr(b, 120)) + "' is right (from byte " + std::to_string(b) + " of the output)";
}
}
