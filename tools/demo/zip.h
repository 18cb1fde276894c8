/* Minimal stand-in for kuba--/zip's zip.h: only what packagetool calls. */
#ifndef V_ZIP_H
#define V_ZIP_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
struct zip_t;
#define ZIP_DEFAULT_COMPRESSION_LEVEL 6
struct zip_t *zip_open(const char *zipname, int level, char mode);
struct zip_t *zip_openwitherror(const char *zipname, int level, char mode, int *errnum);
void zip_close(struct zip_t *zip);
const char *zip_strerror(int errnum);
int zip_entry_open(struct zip_t *zip, const char *entryname);
int zip_entry_write(struct zip_t *zip, const void *buf, size_t bufsize);
int zip_entry_fwrite(struct zip_t *zip, const char *filename);
int zip_entry_close(struct zip_t *zip);
#ifdef __cplusplus
}
#endif
#endif
