// arena.hpp -- variables kept in write-protected memory, and a look at the library's static storage
#ifndef VERIF_ARENA_HPP
#define VERIF_ARENA_HPP
#include <sys/mman.h>
#include <signal.h>
#include <link.h>
#include <elf.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <cxxabi.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

namespace arena {
    constexpr size_t SIZE = 1 << 20;
    static char *base = nullptr; static size_t used = 0; static bool on = false;
    static volatile int written = 0;
    static struct sigaction before;
    static bool inside(const void *p) { return base && (const char *)p >= base && (const char *)p < base + SIZE; }
    static void handler(int sig, siginfo_t *si, void *) {
        if (inside(si->si_addr)) { written = written + 1; mprotect(base, SIZE, PROT_READ | PROT_WRITE); return; }
        sigaction(sig, &before, nullptr);
    }
    static void open() {
        if (!base) base = (char *)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(base, SIZE, PROT_READ | PROT_WRITE);
        used = 0; on = false; written = 0;
    }
    static void *get(size_t n) { used = (used + 15) & ~size_t(15); if (used + n > SIZE) std::abort(); void *p = base + used; used += n; return p; }
    // a copy of x, with everything it owns in the arena
    template<class T> const T &keep(const T &x) {
        void *p = get(sizeof(T)); const bool f = sym::record_functions(false);
        on = true; T *q = new (p) T(x); on = false;
        sym::record_functions(f); return *q;
    }
    template<class T> T &hold(const T &x) { return const_cast<T &>(keep(x)); }
    static void lock() {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO; sigemptyset(&sa.sa_mask);
        sigaction(SIGSEGV, &sa, &before);
        written = 0;
        mprotect(base, SIZE, PROT_READ);
    }
    static int unlock() { mprotect(base, SIZE, PROT_READ | PROT_WRITE); sigaction(SIGSEGV, &before, nullptr); return written; }

    // static storage whose name is in the library's namespace
    struct Region { char *p; size_t n; std::string name; std::string was; };
    static std::vector<Region> &regions() {
        static std::vector<Region> rs; static bool done = false;
        if (done) return rs;
        done = true;
        uintptr_t off = 0;
        dl_iterate_phdr([](dl_phdr_info *i, size_t, void *d) { *(uintptr_t *)d = i->dlpi_addr; return 1; }, &off);
        int fd = ::open("/proc/self/exe", O_RDONLY); struct stat sb;
        if (fd < 0 || fstat(fd, &sb)) return rs;
        char *m = (char *)mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
        if (m == MAP_FAILED) return rs;
        auto *eh = (ElfW(Ehdr) *)m; auto *sh = (ElfW(Shdr) *)(m + eh->e_shoff);
        for (int i = 0; i < eh->e_shnum; ++i) if (sh[i].sh_type == SHT_SYMTAB) {
            auto *sy = (ElfW(Sym) *)(m + sh[i].sh_offset); const char *st = m + sh[sh[i].sh_link].sh_offset;
            for (size_t k = 0; k < sh[i].sh_size / sizeof(*sy); ++k) {
                if ((sy[k].st_info & 15) != STT_OBJECT || !sy[k].st_size || sy[k].st_shndx == SHN_UNDEF || sy[k].st_shndx >= eh->e_shnum) continue;
                if (!(sh[sy[k].st_shndx].sh_flags & SHF_WRITE)) continue;
                int s; char *d = abi::__cxa_demangle(st + sy[k].st_name, nullptr, nullptr, &s);
                std::string nm = s == 0 ? d : st + sy[k].st_name; std::free(d);
                if (nm.compare(0, 15, "uncertainties::") != 0 && nm.find(" uncertainties::") == std::string::npos) continue;
                if (nm.compare(0, 10, "vtable for") == 0 || nm.compare(0, 8, "typeinfo") == 0) continue;
                rs.push_back({(char *)(off + sy[k].st_value), (size_t)sy[k].st_size, nm, ""});
            }
        }
        munmap(m, sb.st_size);
        return rs;
    }
    static void look() { for (auto &r : regions()) r.was.assign(r.p, r.n); }
    static std::string changed() { for (auto &r : regions()) if (memcmp(r.p, r.was.data(), r.n)) return r.name; return ""; }
}
// everything allocated while the arena is on is in it
void *operator new(size_t n) {
    if (arena::on) return arena::get(n);
    void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void operator delete(void *p) noexcept { if (!arena::inside(p)) std::free(p); }
void operator delete(void *p, size_t) noexcept { if (!arena::inside(p)) std::free(p); }
#endif
