// In-memory files for the symbolic runs (the native replays use real files in a scratch directory).
#include <cstdio>
#include <cstdlib>
#include <cstring>
struct PisymFile {
    char name[64];
    unsigned char *data;
    size_t size, cap;
    int used;
};
struct PisymStream {
    int file;
    size_t pos;
    int write, open;
};
static PisymFile pisym_files[8];
int pisym_open_streams = 0;
extern "C" {
FILE *fopen(const char *name, const char *mode) {
    int f = -1, fr = -1;
    for (int i = 0; i < 8; i++) {
        if (pisym_files[i].used && strcmp(pisym_files[i].name, name) == 0) f = i;
        if (!pisym_files[i].used && fr < 0) fr = i;
    }
    for (const char *p = name; *p; p++)
        if (*p == '/') return nullptr; // no directories here
    if (mode[0] == 'r' && f < 0) return nullptr;
    if (mode[0] == 'w') {
        if (f < 0) {
            f = fr;
            pisym_files[f].used = 1;
            memcpy(pisym_files[f].name, name, strlen(name) + 1);
            pisym_files[f].cap = 4096;
            pisym_files[f].data = (unsigned char *)malloc(4096);
        }
        pisym_files[f].size = 0;
    }
    PisymStream *s = (PisymStream *)malloc(sizeof(PisymStream));
    s->file = f;
    s->pos = 0;
    s->write = mode[0] == 'w';
    s->open = 1;
    pisym_open_streams++;
    return (FILE *)s;
}
int fseek(FILE *fp, long off, int whence) {
    PisymStream *s = (PisymStream *)fp;
    s->pos = (whence == SEEK_END ? pisym_files[s->file].size : whence == SEEK_CUR ? s->pos : 0) + off;
    return 0;
}
long ftell(FILE *fp) { return ((PisymStream *)fp)->pos; }
void rewind(FILE *fp) { ((PisymStream *)fp)->pos = 0; }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *fp) {
    PisymStream *s = (PisymStream *)fp;
    PisymFile &f = pisym_files[s->file];
    size_t k = sz * n;
    if (s->pos + k > f.cap) {
        unsigned char *d = (unsigned char *)malloc(2 * (s->pos + k));
        memcpy(d, f.data, f.size);
        free(f.data);
        f.data = d;
        f.cap = 2 * (s->pos + k);
    }
    for (size_t i = 0; i < k; i++) f.data[s->pos + i] = ((const unsigned char *)p)[i];
    s->pos += k;
    if (s->pos > f.size) f.size = s->pos;
    return n;
}
size_t fread(void *p, size_t sz, size_t n, FILE *fp) {
    PisymStream *s = (PisymStream *)fp;
    PisymFile &f = pisym_files[s->file];
    size_t k = sz * n;
    if (s->pos >= f.size) return 0;
    if (k > f.size - s->pos) k = (f.size - s->pos) / sz * sz;
    for (size_t i = 0; i < k; i++) ((unsigned char *)p)[i] = f.data[s->pos + i];
    s->pos += k;
    return k / sz;
}
int fclose(FILE *fp) {
    PisymStream *s = (PisymStream *)fp;
    pisym_open_streams--;
    free(s);
    return 0;
}
int ferror(FILE *) { return 0; }
int fflush(FILE *) { return 0; }
}
extern "C" char pisym_widen(const void *, char c) { return c; } // no locale
#include <istream>
#include <string>
extern "C" std::istream *pisym_getline(std::istream *i, std::string *s, char d) {
    s->clear();
    if (!i->good()) {
        i->setstate(std::ios_base::failbit);
        return i;
    }
    std::streambuf *b = i->rdbuf();
    for (;;) {
        int c = b->sbumpc();
        if (c == EOF) {
            i->setstate(s->empty() ? std::ios_base::eofbit | std::ios_base::failbit : std::ios_base::eofbit);
            return i;
        }
        if ((char)c == d) return i;
        s->push_back((char)c);
    }
}
