/* Prints the keys embedded in the product by the build, as a program using the
 * generated headers sees them. */
#include <stdio.h>
#include <string.h>
#include "random_key_file.h"
int main(void)
{
    int i;
    DECLARE_MLLE_CR_KEY();
    INITIALIZE_MLLE_CR_KEY();
    for (i = 0; i < MLLE_CR_KEY_LEN; i++)
        printf("%02x", (unsigned) (unsigned char) MLLE_CR_KEY[i]);
    printf("\n");
    return 0;
}
