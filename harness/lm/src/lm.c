/* A licence manager for checking: decides by the feature name and records what
 * it is asked in the file LM_LOG.
 *   checkout: licensed iff the name starts with "ok" or equals $LM_ALSO;
 *             otherwise the message is "refused: <name>"
 *   checkin:  fails for names starting with "keep", message "cannot return <name>"
 *   new:      fails with message $LM_NEW_FAIL if that is set */
#include "mlle_portability.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mlle_error.h"
#include "mlle_license_manager.h"

struct mlle_license { int magic; };

static void rec(const char *what, size_t len, const char *s)
{
    const char *p = getenv("LM_LOG");
    FILE *f;
    size_t i;
    if (p == NULL || (f = fopen(p, "a")) == NULL) return;
    fprintf(f, "%s %zu x", what, len);
    /* the name may contain NULs, and ends with one */
    if (s) for (i = 0; i < len || s[i]; i++) fprintf(f, "%02x", (unsigned) (unsigned char) s[i]);
    fprintf(f, "\n");
    fclose(f);
}

static struct mlle_error *say(int code, const char *pre, const char *s)
{
    size_t n = strlen(pre) + strlen(s) + 1;
    char *b = malloc(n);
    struct mlle_error *e;
    snprintf(b, n, "%s%s", pre, s);
    e = mlle_error_new_literal(LICENSE_DOMAIN, code, b);
    free(b);
    return e;
}

struct mlle_license *mlle_license_new(const char *libpath, struct mlle_error **error)
{
    struct mlle_license *l;
    const char *f = getenv("LM_NEW_FAIL");
    rec("new", libpath ? strlen(libpath) : 0, libpath);
    if (f != NULL) {
        *error = say(LICENSE_ERROR_INITIALIZATION_FAILURE, "", f);
        return NULL;
    }
    l = malloc(sizeof *l);
    l->magic = 42;
    return l;
}

void mlle_license_free(struct mlle_license *mlic)
{
    rec("free", (size_t) mlic->magic, NULL);
    mlic->magic = 0;
    free(mlic);
}

int mlle_license_checkout_feature(struct mlle_license *mlic, size_t feature_length, const char *feature, struct mlle_error **error)
{
    const char *also = getenv("LM_ALSO");
    rec(mlic->magic == 42 ? "out" : "out-bad-handle", feature_length, feature);
    if (!strncmp(feature, "ok", 2) || (also && !strcmp(also, feature))) return MLLE_LIC_SUCCESS;
    *error = say(LICENSE_ERROR_CHECKOUT_FAILURE, "refused: ", feature);
    return MLLE_LIC_FAILURE;
}

int mlle_license_checkin_feature(struct mlle_license *mlic, size_t feature_length, const char *feature, struct mlle_error **error)
{
    rec(mlic->magic == 42 ? "in" : "in-bad-handle", feature_length, feature);
    if (strncmp(feature, "keep", 4)) return MLLE_LIC_SUCCESS;
    *error = say(LICENSE_ERROR_CHECKIN_FAILURE, "cannot return ", feature);
    return MLLE_LIC_FAILURE;
}
