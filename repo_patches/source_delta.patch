From 7b6361a0a3cd2b0935f918f915b919c3ec8b01e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 01/70] fix: do not treat files without a package.moc beside
 them as package files

mlle_demask_key() looks up the mask of the parent directory by calling
itself with the path of the (missing) package.moc and passed on that
call's return value 1, which means 'this is a package.moc, its last 32
bytes are a key mask'. mlle_cr_decrypt() then cut the last 32 bytes off
the plaintext of an ordinary file (or crashed if it was shorter).
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 2e24f34..7ea70a1 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -151,6 +151,10 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     if (error) {
         /* assume that no file exists; read mask from parent */
         ret = mlle_demask_key(context, path, key);
+        if (ret > 0) {
+            /* path names a (missing) package.moc; the file asked for is not one */
+            ret = 0;
+        }
     }
     else {
         out_buffer = malloc(file_size);
-- 
2.43.0


From d220deb888d93893d4cc01b561df8723a1709dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 02/70] fix: accept an empty package.mo when looking up a
 directory's key mask

A package.moc made from an empty package.mo decrypts to 0 bytes followed
by the key mask; the mask lookup took the length 0 for a failure, so that
no other file of that directory could be decrypted.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 7ea70a1..946e0c9 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -160,7 +160,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         out_buffer = malloc(file_size);
         if (file_buffer && out_buffer) {
             int ret_code = mlle_cr_decrypt(context, path, file_buffer, file_size, out_buffer);
-            if (ret_code > 0) {
+            if (ret_code >= 0) {
                 /* key mask is now in the hash but it's also the tail in the outbuffer */
                 for (i = 0; i < MLLE_CR_KEY_LEN; ++i) {
                     key[i] = key[i] ^ out_buffer[ret_code + i];
-- 
2.43.0


From 399afeb58d2d5e652c18d0ad9ddaad8a60f60c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 03/70] fix: reject encrypted files too short to hold IV, MAC
 and key mask

An encrypted file of fewer than 48 bytes gave a negative ciphertext
length (out of bounds reads and writes), a package.moc with less than 32
bytes of plaintext a negative plaintext length.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 946e0c9..8911d79 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -284,6 +284,8 @@ int mlle_cr_decrypt(
     /* Split incoming data. */
     iv_in   = (unsigned char*) in;
     if (in) {
+        if (in_len < iv_len + mac_len)
+            goto error;
         enc_in = iv_in + iv_len;
         mac_in = iv_in + in_len - mac_len;
         enc_len = (int)(in_len - iv_len - mac_len);
@@ -327,6 +329,8 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     /* check if this is a package.moc file and save the key into cache */
     if (restore_mask_flag) {
+        if (out_len < MLLE_CR_KEY_LEN)
+            goto error;
         out_len -= MLLE_CR_KEY_LEN; /* take out key length from the data sent back*/
         if (mlle_store_keymask(context, rel_file_path, out + out_len) < 0)
             goto error;
-- 
2.43.0


From 6dac116a23aa0286b2ec0319f5391203aee01911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 04/70] fix: report a failed key mask lookup

mlle_cr_decrypt() ignored the error return of mlle_demask_key() (and used
it as 'this is a package.moc'), so that encrypt_file went on with the
wrong key when a parent's package.moc was damaged, and leaked the contexts
when called without input.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 8911d79..22b1e4c 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -296,9 +296,14 @@ int mlle_cr_decrypt(
 #ifndef DISABLE_DEMASK_KEY
     if (context && rel_file_path) {
         restore_mask_flag = mlle_demask_key(context, rel_file_path, MLLE_CR_KEY);
+        if (restore_mask_flag < 0)
+            goto error;
     }
 #endif
-    if (!in) return 0;
+    if (!in) {
+        res = 0;
+        goto error;
+    }
 
     if (!EVP_DecryptInit_ex(c_ctx, cipher, NULL, MLLE_CR_KEY, iv_in))
         goto error;
-- 
2.43.0


From 37aa3cd386c2436ec90ed6a671adc5fa53640343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:03 +0000
Subject: [PATCH 05/70] fix: check message data against the announced length in
 the LVE

extract_data() copied all bytes of the message after the first line feed
into a buffer of the announced length (heap overflow), left the tail of
the buffer uninitialised when the data was shorter, searched past the end
of the message when there was no line feed, and its callers used data
NULL when the announced length could not be allocated. The LVE now answers
such a message with ERROR 1 (command not understood).
---
 src/common/mlle_utils.c | 11 ++++++++---
 src/lve/mlle_lve.c      | 11 ++++++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 9b39e26..08c67c6 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -38,6 +38,10 @@
  *      command - the structure where we will place the
  *                extracted data.
  *      buffer - the message containing command and data.
+ *
+ * Returns:
+ *      Number of data bytes in the message. Data is complete only
+ *      if this is equal to the length of the command.
  *************************************************************/
 size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_len)
 {
@@ -52,7 +56,7 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
 
     // Get pointer to data part
     // Everything after the first new line character is the data part.
-    data_part = strstr(buffer, "\n");
+    data_part = memchr(buffer, '\n', buffer_len);
     if (data_part == NULL)
     {
         return 0;
@@ -67,8 +71,9 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
         return 0;
     }
 
-    // Copy data
-    memcpy((*command)->data, data_part, data_len);
+    // Copy data, but never more than the announced length.
+    memcpy((*command)->data, data_part,
+           data_len < (*command)->length ? data_len : (*command)->length);
     (*command)->data[(*command)->length] = '\0';
 
     return data_len;
diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 71b83c2..3c44b21 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -83,7 +83,16 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
     if (mlle_command_info[command->id].msg_form == MLLE_PROTOCOL_LENGTH_MSG_FORM)
     {
         // Extract data from message.
-        extract_data(&command, buffer, buffer_len);
+        size_t data_len = extract_data(&command, buffer, buffer_len);
+
+        if (command->data == NULL || data_len != command->length)
+        {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
+                    "Parse error. The length of the data does not match the length argument.");
+            free(command->data);
+            command->data = NULL;
+            return current_state;
+        }
     }
 
     switch (current_state) {
-- 
2.43.0


From 2bb9a7101c5ec44286f4f4490f948e8c1bfd2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:34 +0000
Subject: [PATCH 06/70] fix: bounds and error checks when the tool reads a
 reply

mlle_read_command() ignored a failed read while collecting the rest of
the data (endless loop, or memcpy with size -1), wrote past the buffer
when the LVE sent more data than announced, and went on with data NULL
when the announced length could not be allocated. It also leaked every
message buffer.
---
 src/common/mlle_utils.c | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index 08c67c6..f5a8ab5 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -98,14 +98,6 @@ int mlle_read_command(SSL *ssl,
     int errorCode = 0;
     char *messageBuffer = NULL;
 
-    // The SSL buffer can hold at most 16 kb of data.
-    messageBuffer = calloc(SSL_RECORD_SIZE, 1);
-    if (messageBuffer == NULL) 
-    {
-        mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the message buffer");
-        return 0;
-    }
-
     // Read data from SSL.
     bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
 
@@ -122,6 +114,7 @@ int mlle_read_command(SSL *ssl,
     if (token_buffer == NULL) 
     {
         mlle_error_set_literal(error, 1, 1, "Failed to allocate memory for the token buffer");
+        free(messageBuffer);
         return 0;
     }
     memcpy(token_buffer, messageBuffer, bytesRead);
@@ -143,6 +136,7 @@ int mlle_read_command(SSL *ssl,
         {
             mlle_error_set_literal(error, 1, 1, error_msg);
         }
+        free(messageBuffer);
         return 0;
     }
     assert(command->id != MLLE_PROTOCOL_UNDEFINED_CMD);
@@ -157,8 +151,12 @@ int mlle_read_command(SSL *ssl,
         if (command->data == NULL)
         {
             mlle_error_set_literal(error, 1, 1, "End Of File.");
+            free(messageBuffer);
+            return 0;
         }
     }
+    free(messageBuffer);
+    messageBuffer = NULL;
 
     // -----------------------------
     // Are there more data to read?
@@ -168,9 +166,32 @@ int mlle_read_command(SSL *ssl,
         // Read more data.
         bytesRead = ssl_read_message(ssl, &messageBuffer, &errorCode);
 
-        // Add data to command buffer.
-        memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
+        // Check for error.
+        if (bytesRead < 0)
+        {
+            ssl_get_error_string(errorCode, error_msg, ERROR_SIZE);
+            mlle_error_set_literal(error, 1, 1, error_msg);
+            free(command->data);
+            command->data = NULL;
+            return 0;
+        }
+
+        // Add data to command buffer, but never more than the announced length.
+        if ((size_t) bytesRead <= command->length - totalBytesRead)
+        {
+            memcpy(command->data + totalBytesRead, messageBuffer, bytesRead);
+        }
         totalBytesRead += bytesRead;
+        free(messageBuffer);
+        messageBuffer = NULL;
+    }
+
+    if (totalBytesRead > command->length)
+    {
+        mlle_error_set_literal(error, 1, 1, "Parse error. More data than the length argument announces.");
+        free(command->data);
+        command->data = NULL;
+        return 0;
     }
 
     return 1;
-- 
2.43.0


From 34adcba5bc143623b70d0d26dc28ef913272551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:35 +0000
Subject: [PATCH 07/70] fix: close the tool's copy of the pipe end the LVE
 writes to

With the write end still open in the tool, reading from an LVE that has
ended never saw end of file: the tool hung for ever. It also leaked one
file descriptor for each LVE started.
---
 src/tool/mlle_spawn_posix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 3046735..b2012d1 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -99,6 +99,7 @@ mlle_spawn(const char *exec_name,
 
     default:
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         connections = calloc(1, sizeof(*connections));
         if (connections != NULL) {
             connections->fd_to_child = parent_to_child_pipe_fd[PIPE_WRITE_INDEX];
-- 
2.43.0


From f121f8224fdf188fda4c66ecc5c5765102452803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:02 +0000
Subject: [PATCH 08/70] fix: answer a LIB command with an empty path

The LVE sent no reply at all to 'LIB 0', so the tool waited for ever, and
went on to the licensing state without a library path. It now answers
ERROR 4 and keeps waiting for the library path.
---
 src/lve/mlle_lve.c         | 5 +++++
 src/lve/mlle_lve_libpath.c | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 3c44b21..6b8e885 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -150,6 +150,11 @@ mlle_lve_handle_command(struct mlle_lve_ctx *lve_ctx,
         break;
     }
 
+    if (next_state == MLLE_LVE_STATE_LICENSE && lve_ctx->libpath == NULL) {
+        /* The library path was missing, it has to be given again. */
+        next_state = current_state;
+    }
+
     if (command->data != NULL) {
         free(command->data);
         command->data = NULL;
diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index 07c2a89..d270d07 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -64,6 +64,10 @@ int mlle_lve_libpath(struct mlle_lve_ctx *lve_ctx,
     if ((command->data == NULL) || (command->length == 0)) {
         lve_ctx->tool_error_type = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
         lve_ctx->tool_error_msg = "Path to library is missing.";
+        if (!is_in_checkout_feature_without_tool_mode) {
+            mlle_send_error(lve_ctx->ssl, lve_ctx->tool_error_type,
+                            lve_ctx->tool_error_msg);
+        }
         return 0;
     }
 
-- 
2.43.0


From 88a869e3005748660fedaf4df503ec2c35b3cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:04 +0000
Subject: [PATCH 09/70] fix: handle a tool that sends no certificate

SSL_VERIFY_PEER without SSL_VERIFY_FAIL_IF_NO_PEER_CERT lets a client
connect without a certificate; the LVE then crashed comparing a NULL key.
Such a tool is now an unapproved one.
---
 src/lve/mlle_lve_pubkey.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lve/mlle_lve_pubkey.c b/src/lve/mlle_lve_pubkey.c
index 31300b7..1210c83 100644
--- a/src/lve/mlle_lve_pubkey.c
+++ b/src/lve/mlle_lve_pubkey.c
@@ -69,6 +69,11 @@ int validate()
     int i;
     DECLARE_PUBLIC_KEY_TOOL();
 
+    // The tool sent no certificate, so there is no key to approve.
+    if (global_tool_pub_key == NULL) {
+        return 0;
+    }
+
     // TODO check with several tool keys.
     INITIALIZE_PUBLIC_KEY_TOOL();
     // global_tool_pub_key is the public key received in
-- 
2.43.0


From 3e20dc12023dc5140a5da51d9cb0a47e5e06e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:27 +0000
Subject: [PATCH 10/70] fix: refuse . and .. in the path of a FILE command

The documentation says that the elements . and .. may not be used, but the
LVE followed them, so that a tool could read any file that the user can
read and not only files of the library.
---
 src/lve/mlle_lve_file.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/lve/mlle_lve_file.c b/src/lve/mlle_lve_file.c
index 76067ee..e8f17b4 100644
--- a/src/lve/mlle_lve_file.c
+++ b/src/lve/mlle_lve_file.c
@@ -24,6 +24,26 @@
 #include "mlle_lve_file.h"
 #include "mlle_cr_decrypt.h"
 
+/*
+ * Returns 1 if any element of the path is "." or "..", which may not be
+ * used in the path of a file in the library, and 0 otherwise.
+ */
+static int has_dot_element(const char *path)
+{
+    while (*path != '\0') {
+        size_t len = strcspn(path, "/\\");
+
+        if ((len == 1 && path[0] == '.')
+            || (len == 2 && path[0] == '.' && path[1] == '.')) {
+            return 1;
+        }
+        path += len;
+        if (*path != '\0')
+            path++;
+    }
+    return 0;
+}
+
 int
 mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
               const struct mlle_command *command)
@@ -55,6 +75,11 @@ mlle_lve_file(struct mlle_lve_ctx *lve_ctx,
         goto CLEANUP;
     }
     rel_file_path = command->data;
+    if (has_dot_element(rel_file_path)) {
+        error_code = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
+        error_msg = "The elements . and .. may not be used in a file path.";
+        goto CLEANUP;
+    }
     snprintf(file_path, path_size, "%s/%s", lve_ctx->libpath, rel_file_path);
 
     file_buffer = mlle_io_read_file(file_path, &file_size, &error);
-- 
2.43.0


From 9adc594251865afdc4a037fd13d09c5450ba3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:01 +0000
Subject: [PATCH 11/70] fix: keep bytes 0x0d of a generated encryption key

randomize_key writes its 32 random bytes through create_header_file(),
which drops every \r because it expects a PEM file. One key in eight was
therefore shorter than 32 bytes (and MLLE_CR_KEY_LEN with it).
---
 src/embedfile/obfuscate_utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index 32046bd..b667ea3 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -70,9 +70,10 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
     size_t i = 0, j = 0;
     FILE *out = NULL;
 
-    /* Remove \r from the string to support windows generated pem files */
+    /* Remove \r from the string to support windows generated pem files;
+       an encryption key is binary data and must be left alone. */
     for (; i < len; ++i) {
-        if (data[i] == '\r')
+        if (type != ENCRYPT && data[i] == '\r')
             continue;
         if (i != j)
             data[j] = data[i];
-- 
2.43.0


From 8e8782aa55785a9d3e1016e21ffbdc63985244a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:05 +0000
Subject: [PATCH 12/70] fix: crash of obfuscate when the key file does not
 exist

The error message was printed with a character where %s needs a string.
---
 src/embedfile/obfuscate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate.c b/src/embedfile/obfuscate.c
index ca397fe..d4ded9a 100644
--- a/src/embedfile/obfuscate.c
+++ b/src/embedfile/obfuscate.c
@@ -22,6 +22,7 @@
 #endif
 #endif
 
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <sys/stat.h>
@@ -131,8 +132,8 @@ void read_file(char* file, char** buf, size_t* len) {
     // Get size of file.
     staterr = stat(file, &fileInfo);
     if (staterr != 0) {
-        fprintf(stderr, "Could not get info on %s\n", *file);
-        fprintf(stderr, "ERROR [%d] %s", staterr, strerror(staterr));
+        fprintf(stderr, "Could not get info on %s\n", file);
+        fprintf(stderr, "ERROR [%d] %s", errno, strerror(errno));
         exit(1);
     }
     *len = fileInfo.st_size;
-- 
2.43.0


From 19f8e2267d61ab68e410c85386b65f3c606c38a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:07 +0000
Subject: [PATCH 13/70] fix: encrypt_file without basedir writes the file it
 was asked to write

The form without <basedirdest> removed the trailing c of the output name
and then opened that name for writing: 'encrypt_file x.mo x.moc' emptied
the cleartext x.mo and produced no x.moc.
---
 src/encrypt_decrypt/encrypt_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index a55e112..c567fdd 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -90,7 +90,7 @@ int main(int argc, char** argv)
             *fname = '\0';
         }
         c = mlle_cr_create("");
-        snprintf(pathdest, 4096, "%s", encrypted);
+        snprintf(pathdest, 4096, "%s", argv[2]);
         while (fname != encrypted) {
             char ch = *(fname - 1);
             if (ch == '/' || ch == '\\') break;
-- 
2.43.0


From 152868d5374566279a05d61c391b483ebfc70f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:08 +0000
Subject: [PATCH 14/70] fix: crash of the LVE when the last option has no value

---
 src/lve/lve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lve/lve.c b/src/lve/lve.c
index 6d5e7a1..f309c75 100644
--- a/src/lve/lve.c
+++ b/src/lve/lve.c
@@ -233,6 +233,10 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i == argc) {
+                fprintf(stderr, "Error: Option --checkout-feature requires a value\n");
+                goto error;
+            }
             checkout_feature_sz =
                 (strlen(argv[i]) + 1) * sizeof(*checkout_feature);
             checkout_feature = malloc(checkout_feature_sz);
@@ -250,6 +254,10 @@ int main(int argc, char **argv)
                 goto error;
             }
             i++;
+            if (i == argc) {
+                fprintf(stderr, "Error: Option --libpath requires a value\n");
+                goto error;
+            }
             libpath_sz = (strlen(argv[i]) + 1) * sizeof(*libpath);
             libpath = malloc(libpath_sz);
             if (libpath == NULL) {
-- 
2.43.0


From 5963a6a7b2c0f14c9fff9d527da2f5afa286dece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:10 +0000
Subject: [PATCH 15/70] fix: print valid JSON for --version

The object had a comma after its last member.
---
 src/lve/lve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lve/lve.c b/src/lve/lve.c
index f309c75..0801760 100644
--- a/src/lve/lve.c
+++ b/src/lve/lve.c
@@ -46,11 +46,11 @@ static void print_version()
 
     printf("{\n"
            "    \"name\": \"%s\",\n"
-           "    \"version\": \"%s\",\n"
+           "    \"version\": \"%s\""
 #ifdef TOOLS_LIST_JSON_STRING
-           "    \"tools\": %s,\n"
+           ",\n    \"tools\": %s"
 #endif
-           "}\n",
+           "\n}\n",
            STR(CMAKE_PROJECT_NAME), STR(CMAKE_PROJECT_VERSION)
 #ifdef TOOLS_LIST_JSON_STRING
                                   ,
-- 
2.43.0


From 08f191b1a8fa182bdf122e771d13620e197e5b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:46 +0000
Subject: [PATCH 16/70] fix: uninitialised text in the error of a failed
 handshake

ssl_get_error_string() wrote nothing when OpenSSL's error queue was empty
(as it is when the LVE ends during the handshake), and its callers used
their buffer all the same.
---
 src/common/mlle_ssl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index a7de6d3..4658c44 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -443,6 +443,9 @@ void ssl_get_error_string(int error_code, char *error, size_t error_len)
             break;
     }
 
+    // There may be no more information than the error code.
+    snprintf(error, error_len, "%s", err_str);
+
     while ((error_value = ERR_get_error()) > 0)
     {
         snprintf(error, error_len, "%s. reason: %s", err_str, (char*) ERR_reason_error_string(error_value));
-- 
2.43.0


From 136ebbedaa4f225f6b6b3088cd66d00397a299eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:48 +0000
Subject: [PATCH 17/70] fix: set an error when mlle_tool_version() cannot send
 its command

---
 src/tool/mlle_licensing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index b2648b3..26c292a 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -214,6 +214,8 @@ int mlle_tool_version(const struct mlle_connections *connections,
 
     if (mlle_send_number_form(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, 
         max_protocol_version) < 0) {
+        mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "Failed to send command VERSION to LVE.");
         return 0;
     }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_VERSION_CMD, &command, error)) {
-- 
2.43.0


From 8e5a117e3ae7e827ee6e71a08b77cf894f41d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:25 +0000
Subject: [PATCH 18/70] fix: stack overflow with a file path of almost 4096
 characters

mlle_demask_key() puts /package.moc in place of the file name without
looking at the size of its buffer.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 22b1e4c..852cb61 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -87,6 +87,11 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
         mlle_debug_log_key(key);
     }
 
+    /* "/package.moc" must fit in place of the file name below */
+    if (strlen(rel_file_path) + PACKAGE_MOC_STRLEN + 2 > sizeof(path)) {
+        return -1;
+    }
+
     while (rel_file_path[i] && (i < MLLE_LONG_FILE_NAME_MAX)) {
         ch = rel_file_path[i];
         path[i] = ch;
-- 
2.43.0


From c34571e19e90dcdf25da314137aff32b68f7ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:20 +0000
Subject: [PATCH 19/70] fix: find an icon in a subdirectory of the library

The result of searching a subdirectory was thrown away, so packagetool
refused every icon that is not in the top-level directory.
---
 src/packagetool/utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index e26cbdc..f55dc1b 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1128,7 +1128,10 @@ int findFileLinux(const char *filename, const char *path)
                 // Have we found a folder?
                 if (dir->d_type == DT_DIR) {
                     // Use recursive to check the folder we found.
-                    findFileLinux(filename, searchPath);
+                    if (findFileLinux(filename, searchPath)) {
+                        result = 1;
+                        break;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
-- 
2.43.0


From d5a2b3623e33e18c0c50c8e25230136b32eabc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:49 +0000
Subject: [PATCH 20/70] fix: icon path in the manifest is relative to the
 library

The documentation wants a path from the top-level directory of the
library; packagetool wrote one that starts with the library's name, and
cut it at the wrong place when TMPDIR was set (staging always is in /tmp).
---
 src/packagetool/utils.c | 49 +++++++++++------------------------------
 1 file changed, 13 insertions(+), 36 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index f55dc1b..5187500 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1589,9 +1589,8 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
  *********************************************************/
 int cleanUpIconPath()
 {
-    char *tmpDir = NULL;
     char *tmpBuf = NULL;
-    char *ptr1, *ptr2 = NULL;
+    char *ptr = NULL;
     size_t path_len = 0;
     int i = 0;
 
@@ -1603,48 +1602,26 @@ int cleanUpIconPath()
 
     tmpBuf = pathToIcon;
 
-// Get the tmp path.
-#ifdef WIN32
-    tmpDir = getenv("TEMP");
-#else
-    tmpDir = getenv("TMPDIR");
-    if (tmpDir == NULL) {
-        tmpDir = "/tmp";
-    }
-#endif
-
-    // Point to icon path.
-    ptr1 = tmpBuf;
+    // Step forward to after temp folders and library name.
+    ptr = tmpBuf + strlen(getCopiedSourcePath()) + 1;
 
-    // Step forward to after temp folders.
-    ptr1 += strlen(tmpDir) + 1;
-
-    if (ptr1 && *ptr1) {
-        // Point to next slash.
+    if (*ptr) {
 #ifdef WIN32
-        ptr2 = strchr(ptr1, '\\');
-
         // replace '\\' with '/' according to spec
-        while (ptr2[i]) {
-            if (ptr2[i] == '\\') {
-                ptr2[i] = '/';
+        while (ptr[i]) {
+            if (ptr[i] == '\\') {
+                ptr[i] = '/';
             }
             i++;
         }
-#else
-        ptr2 = strchr(ptr1, '/');
 #endif
 
-        // Step forward to after library name.
-        ++ptr2;
-
-        if (ptr2 && *ptr2) {
-            // Create icon path without tmp or library name.
-            path_len = strlen(ptr2) + 1;
-            pathToIcon = malloc(path_len);
-            snprintf(pathToIcon, path_len, "%s", ptr2);
-            return 1;
-        }
+        // Create icon path without tmp or library name.
+        path_len = strlen(ptr) + 1;
+        pathToIcon = malloc(path_len);
+        snprintf(pathToIcon, path_len, "%s", ptr);
+        free(tmpBuf);
+        return 1;
     }
 
     free(tmpBuf);
-- 
2.43.0


From e937d3ef2136e6798594829d72d02d73c3c6bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:50 +0000
Subject: [PATCH 21/70] fix: copy the tools and dependencies files as they are

Lines of 200 characters or more overflowed a buffer on the stack, a last
line without line feed was lost, a byte 0xff was taken for the end of the
file, and a file that cannot be read crashed packagetool.
---
 src/packagetool/manifest.c | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 5b652b9..decc351 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -442,38 +442,33 @@ char *extractPlatform(char *fileName)
 void copyFileInformation(char *path)
 {
     FILE *xmlfile;
-    char ch;
-    int index = 0;
+    int ch;
     int firstLine = 1;
-    char lineBuffer[200] = {'\0'};
+    int lineStart = 1;
 
     if ( (xmlfile = fopen(path, "r")))
     {
-        ch = getc(xmlfile);
-
-        while (ch != EOF)
+        while ((ch = getc(xmlfile)) != EOF)
         {
-            if (ch != '\n')
+            // Skip first line in the file.
+            if (!firstLine)
             {
-                lineBuffer[index] = ch;
-                ++index;
+                add_xml_indent();
+                putc(ch, fd);
+                lineStart = (ch == '\n');
             }
-            else
+            else if (ch == '\n')
             {
-                // Skip first line in the file.
-                if (!firstLine)
-                {
-                    add_xml_indent();
-                    fprintf(fd, "%s\n", lineBuffer);
-                }
-
-                memset(&lineBuffer[0], 0, sizeof(lineBuffer));
-                index = 0;
                 firstLine = 0;
             }
-            ch = getc(xmlfile);
         }
+
+        // End the last line if the file doesn't.
+        if (!lineStart)
+        {
+            putc('\n', fd);
+        }
+        fclose(xmlfile);
     }
-    fclose(xmlfile);
     xml_on_new_line = 1;
 }
-- 
2.43.0


From 210f31b016e251ad314a9419cdf23c7286ea871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:52 +0000
Subject: [PATCH 22/70] fix: do not read past an empty argument

packagetool skips the first character of each argument name; for an empty
argument that is its terminator, and the next argument was taken for the
name.
---
 src/packagetool/arguments.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/arguments.c b/src/packagetool/arguments.c
index 1bca204..71f3835 100644
--- a/src/packagetool/arguments.c
+++ b/src/packagetool/arguments.c
@@ -213,7 +213,10 @@ int validateArguments(int noOfArguments, char **arguments)
     for (i = 1; i < noOfArguments; i++)
     {
         ptr = arguments[i];
-        ++ptr;
+        if (*ptr)
+        {
+            ++ptr;
+        }
 
         // Is the argument valid.
         if (ptr && *ptr && lookupArgument(ptr))
-- 
2.43.0


From fe3068bd9aae5cfed4b06096bc95cf7ac188c6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:29 +0000
Subject: [PATCH 23/70] fix: fail when a file of the library cannot be copied

packagetool printed a message and went on to deliver an archive without
the file, with exit status 0.
---
 src/packagetool/utils.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 5187500..f32aa7c 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1988,10 +1988,13 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     if (mkdir(searchPathTo, 0777) == -1) {
                         printf("Error: Failed to create folder %s.\n",
                                searchPathTo);
+                        result = 0;
                     }
 
                     // Use recursive to check the folder we found.
-                    copyDirectoryLinux(searchPath, searchPathTo);
+                    if (!copyDirectoryLinux(searchPath, searchPathTo)) {
+                        result = 0;
+                    }
                 }
                 // Or a file?
                 else if (dir->d_type == DT_REG) {
@@ -1999,8 +2002,9 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
 
                     // file in new location.
                     snprintf(folderName, MAX_PATH_LENGTH, "%s/%s", toPath, dir->d_name);
-                    copyFile(searchPath, folderName);
-
+                    if (!copyFile(searchPath, folderName)) {
+                        result = 0;
+                    }
                 }
             }
         }
-- 
2.43.0


From ad0d296f688853bf02ce48585a87cb011559e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:30 +0000
Subject: [PATCH 24/70] fix: closing of files in packagetool's encryptFile()

It closed uninitialised pointers when a file could not be opened, and did
not notice when the end of the encrypted file could not be written.
---
 src/packagetool/utils.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index f32aa7c..16f8ecf 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1276,7 +1276,7 @@ int isEncryptedFile(char *filename)
 int encryptFile(mlle_cr_context *context, const char *basedir,
                 const char *rel_file_path)
 {
-    FILE *in, *out;
+    FILE *in = NULL, *out = NULL;
     int result = 1;
     char file[LONG_FILE_NAME_MAX];
     char newFile[LONG_FILE_NAME_MAX];
@@ -1303,8 +1303,13 @@ int encryptFile(mlle_cr_context *context, const char *basedir,
         result = 0;
     }
 
-    fclose(in);
-    fclose(out);
+    if (in != NULL) {
+        fclose(in);
+    }
+    if (out != NULL && fclose(out) != 0) {
+        printf("Error: Couldn't write file %s.\n", newFile);
+        result = 0;
+    }
 
     return result;
 }
-- 
2.43.0


From 1229f8b0cf4d0be4fb6dbc258f19774a67c058ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:09 +0000
Subject: [PATCH 25/70] fix: notice when an output file cannot be written
 completely

encrypt_file, decrypt_file and packagetool did not look at the result of
the last write (when closing the file), so that they reported success for
a truncated file on a full disk.
---
 src/encrypt_decrypt/decrypt_file.c | 6 ++++--
 src/encrypt_decrypt/encrypt_file.c | 6 ++++--
 src/packagetool/utils.c            | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 0d09cf4..27d50d2 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -91,8 +91,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", argv[3], strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(argv[3]);
 
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index c567fdd..1975699 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -116,8 +116,10 @@ int main(int argc, char** argv)
     /* Close files. */
     if (in != NULL)
         fclose(in);
-    if (out != NULL)
-        fclose(out);
+    if (out != NULL && fclose(out) != 0) {
+        fprintf(stderr, "Could not write file %s. Error message was: %s\n", pathdest, strerror(errno));
+        res = 1;
+    }
     if (out != NULL && res != 0)
         remove(pathdest);
 
diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 16f8ecf..8763313 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2065,6 +2065,7 @@ int copyFile(char *fromPath, char *toPath)
         printf("Error: When copying file: Failed to read from file "
                "\"%s\".\n",
                fromPath);
+        goto error;
     }
 
     fdWrite = fopen(toPath, "wb");
@@ -2074,11 +2075,12 @@ int copyFile(char *fromPath, char *toPath)
             toPath, strerror(errno));
         goto error;
     }
-    fwrite(data, sizeof(char), buffSize, fdWrite);
-    if (bytes != buffSize) {
+    bytes = fwrite(data, sizeof(char), buffSize, fdWrite);
+    if (bytes != buffSize || fflush(fdWrite) != 0) {
         printf("Error: When copying file: Failed to write to file "
                "\"%s\".\n",
                toPath);
+        goto error;
     }
 
 #ifndef WIN32
-- 
2.43.0


From b22ffcb1f03591cb6dbb7311949c26f12d51674d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:49 +0000
Subject: [PATCH 26/70] fix: stack overflow for FILE paths with many elements

The directory masks are looked up recursively, with two path buffers of
4096 characters on the stack for each level.
---
 src/decryptors/default/src/mlle_cr_decrypt.c | 32 +++++++++++++++-----
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 852cb61..94a8149 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -68,8 +68,11 @@ void mlle_debug_log_key(const unsigned char* key) { }
 
 
 int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigned char* key) {
-    char path[MLLE_LONG_FILE_NAME_MAX];
-    char fullpath[MLLE_LONG_FILE_NAME_MAX];
+    /* On the heap, since this function calls itself for each parent directory. */
+    char *path = NULL;
+    char *fullpath = NULL;
+    size_t path_size = strlen(rel_file_path) + PACKAGE_MOC_STRLEN + 2;
+    size_t fullpath_size = 0;
     size_t rel_path_len;
     int last_slash_index = 0;
     int i = 0;
@@ -88,7 +91,11 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     }
 
     /* "/package.moc" must fit in place of the file name below */
-    if (strlen(rel_file_path) + PACKAGE_MOC_STRLEN + 2 > sizeof(path)) {
+    if (path_size > MLLE_LONG_FILE_NAME_MAX) {
+        return -1;
+    }
+    path = malloc(path_size);
+    if (path == NULL) {
         return -1;
     }
 
@@ -114,17 +121,18 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     if (is_package_mo_file) {
         if (last_slash_index == 0) {
             /* top level does not have any mask */
-            return 1; /* request storing the key after decryption */
+            ret = 1; /* request storing the key after decryption */
         }
         else {
             /* Get a mask from parent dir */
             if (mlle_demask_key(context, path, key) < 0) {
-                return -1;
+                ret = -1;
             }
             else {
-                return 1;
+                ret = 1;
             }
         }
+        goto cleanup;
     }
 
     /* check if we have a key in cache */
@@ -142,7 +150,7 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
            mlle_debug_log_key(key);
        }
 
-       return 0;
+       goto cleanup;
     }  
 
     /* if there is package.moc in this directory read key from it; otherwize return parent */
@@ -151,7 +159,13 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     else
         memcpy(path + last_slash_index, "package.moc", 12); /* strlen("package.moc") + 1 = 12 */
 
-    snprintf(fullpath, sizeof(fullpath), "%s/%s", context->basedir, path);
+    fullpath_size = strlen(context->basedir) + 1 + strlen(path) + 1;
+    fullpath = malloc(fullpath_size);
+    if (fullpath == NULL) {
+        ret = -1;
+        goto cleanup;
+    }
+    snprintf(fullpath, fullpath_size, "%s/%s", context->basedir, path);
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
     if (error) {
         /* assume that no file exists; read mask from parent */
@@ -188,6 +202,8 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     }
 
   cleanup:
+    free(path);
+    free(fullpath);
     free(file_buffer);
     free(out_buffer);
     mlle_error_free(&error);
-- 
2.43.0


From b92fd26345d7cb7dd89a3c2434cdaa481d401613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:44 +0000
Subject: [PATCH 27/70] fix: crash when licensing cannot be set up for
 --checkout-feature

mlle_lve_setup_licensing_check_error() sent the error over the TLS
connection, which does not exist when a feature is checked out from the
command line.
---
 src/lve/mlle_lve_feature.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lve/mlle_lve_feature.c b/src/lve/mlle_lve_feature.c
index 68a7c9d..cc8689e 100644
--- a/src/lve/mlle_lve_feature.c
+++ b/src/lve/mlle_lve_feature.c
@@ -16,6 +16,7 @@
 
 #define _XOPEN_SOURCE 700
 #include <stddef.h>
+#include <stdio.h>
 /* libcrypto-compat.h must be first */
 #include "libcrypto-compat.h"
 
@@ -42,6 +43,12 @@ mlle_lve_setup_licensing_check_error(struct mlle_lve_ctx *lve_ctx)
     struct mlle_error *error = NULL;
 
     if (!mlle_lve_setup_licensing(lve_ctx, &error)) {
+        if (lve_ctx->ssl == NULL) {
+            /* No tool is connected (--checkout-feature on the command line). */
+            fprintf(stderr, "%s\n", mlle_error_get_message(error));
+            mlle_error_free(&error);
+            return 0;
+        }
         mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_LICENSE_ERROR,
                 mlle_error_get_message(error));
         mlle_error_free(&error);
-- 
2.43.0


From 336952f453e8a10c272abe158704efffd758e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:08 +0000
Subject: [PATCH 28/70] fix: rest of the key left in memory after CLEAR for
 files with CRLF

The characters behind the shortened key were initialized too, but CLEAR_
only clears _LEN bytes.
---
 src/embedfile/obfuscate_utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index b667ea3..fe722b9 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -79,8 +79,7 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
             data[j] = data[i];
         ++j;
     }
-    if (j < len)
-        data[j] = 0;
+    len = j;
 
     out = open_or_exit(filename, "wb");
 
-- 
2.43.0


From 9479b33b0d84e38f9abc8ec5393a465b8430e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:12 +0000
Subject: [PATCH 29/70] fix: report a key header that could not be written
 completely

---
 src/embedfile/obfuscate_utils.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/embedfile/obfuscate_utils.c b/src/embedfile/obfuscate_utils.c
index fe722b9..ce955dd 100644
--- a/src/embedfile/obfuscate_utils.c
+++ b/src/embedfile/obfuscate_utils.c
@@ -69,6 +69,7 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
 {
     size_t i = 0, j = 0;
     FILE *out = NULL;
+    int write_failed = 0;
 
     /* Remove \r from the string to support windows generated pem files;
        an encryption key is binary data and must be left alone. */
@@ -95,5 +96,9 @@ void create_header_file(char* name, key_type type, unsigned char *data, size_t l
 
     write_header_extra(out, type);
 
-    fclose(out);
+    write_failed = ferror(out);
+    if (fclose(out) != 0 || write_failed) {
+        fprintf(stderr, "Could not write file '%s'.", filename);
+        exit(1);
+    }
 }
-- 
2.43.0


From c28ab00042b90d65b29aa73faed4e8228afc8de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:28 +0000
Subject: [PATCH 30/70] fix: encryption fails if there are no random bytes

The result of RAND_bytes() was ignored, so that the IV or the mask could
be whatever the memory contained before.
---
 src/decryptors/default/src/mlle_cr_encrypt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index a91c6c3..505a87b 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -131,7 +131,10 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
         }
 
         /* Create and store key mask for this directory */
-        RAND_bytes(store_mask, MLLE_CR_KEY_LEN);
+        if (RAND_bytes(store_mask, MLLE_CR_KEY_LEN) != 1) {
+            fprintf(stderr, "Could not generate a key mask for %s\n", rel_file_path);
+            return -1;
+        }
         map_item = (struct mlle_key_mask_map*)calloc(1, sizeof(struct mlle_key_mask_map) + rel_path_len + 1);
         if (map_item == NULL) {
             return -1;
@@ -235,7 +238,8 @@ int mlle_cr_encrypt(mlle_cr_context* context,
 
     /* Create IV and write it to file. */
     iv = (unsigned char*) malloc(iv_len);
-    RAND_bytes(iv, iv_len);
+    if (iv == NULL || RAND_bytes(iv, iv_len) != 1)
+        goto error;
     if (fwrite(iv, iv_len, 1, out) < 1)
         goto error;
 
-- 
2.43.0


From 1d8d1cb3e298039b7b09ec5b2a3eb3d1b5af0a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:25 +0000
Subject: [PATCH 31/70] fix: stack overflow of encrypt_file for an empty or
 long file name

---
 src/encrypt_decrypt/encrypt_file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index 1975699..8e9c6b1 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -69,6 +69,10 @@ int main(int argc, char** argv)
         fprintf(stderr, "Could not open file %s for reading. Error message was: %s\n", argv[1], strerror(errno));
         exit(1);
     }
+    if (argv[2][0] == '\0' || strlen(argv[2]) + (argc == 4 ? strlen(argv[3]) + 1 : 0) >= sizeof(pathdest)) {
+        fprintf(stderr, "The name of the encrypted file is empty or too long\n");
+        exit(2);
+    }
     strcpy(encrypted, argv[2]);
     if (argc == 4) {
         destdir = argv[3];
-- 
2.43.0


From c12859c2cc0e798a6a76657124b420cd178d3f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:16 +0000
Subject: [PATCH 32/70] fix: a socket is not a library directory

---
 src/lve/mlle_lve_libpath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lve/mlle_lve_libpath.c b/src/lve/mlle_lve_libpath.c
index d270d07..26e852f 100644
--- a/src/lve/mlle_lve_libpath.c
+++ b/src/lve/mlle_lve_libpath.c
@@ -152,7 +152,7 @@ int validate_directory(struct mlle_lve_ctx **lve_ctx)
         (*lve_ctx)->tool_error_type = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
         (*lve_ctx)->tool_error_msg = "Library path does not exist.";
         return 0;
-    } else if ((info.st_mode & S_IFDIR) == 0) {
+    } else if ((info.st_mode & S_IFMT) != S_IFDIR) {
         // It's not a directory.
         (*lve_ctx)->tool_error_type = MLLE_PROTOCOL_FILE_NOT_FOUND_ERROR;
         (*lve_ctx)->tool_error_msg = "Library path is not a directory.";
-- 
2.43.0


From 927ce0cc0bece22652b18450466d4c013148b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:35 +0000
Subject: [PATCH 33/70] fix: descriptors left open when the LVE cannot be
 started

---
 src/tool/mlle_spawn_posix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index b2012d1..bf6f2f0 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -66,6 +66,8 @@ mlle_spawn(const char *exec_name,
     status = pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
     }
 
@@ -73,6 +75,10 @@ mlle_spawn(const char *exec_name,
     switch (child_pid) {
     case -1:
         mlle_error_set_literal(error, 1, 1, "fork() failed.");
+        close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+        close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
+        close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         return NULL;
 
     case 0:
-- 
2.43.0


From 6b141eda946bcc8869d2160f9d30f08e1be9bbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:00 +0000
Subject: [PATCH 34/70] fix: release the data of replies the tool library does
 not hand on

---
 src/tool/mlle_licensing.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index 26c292a..45b2cf8 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -126,6 +126,8 @@ mlle_expect_command(SSL *ssl,
                 "Unexpected command. Expected command %s, but got command %s.",
                 mlle_command_info[expected_command_id].name,
                 mlle_command_info[command->id].name);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -183,6 +185,8 @@ mlle_expect_commands(SSL *ssl,
         }
         mlle_error_set_literal(error, MLLE_ERROR_DOMAIN_TOOL, 1, err_msg);
         free(err_msg);
+        free(command->data);
+        command->data = NULL;
         return 0;
     }
 
@@ -308,6 +312,7 @@ int mlle_tool_feature(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
@@ -367,6 +372,7 @@ mlle_tool_license(const struct mlle_connections *connections,
     } else if (command.id == MLLE_PROTOCOL_NO_CMD) {
         mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, MLLE_TOOL_ERROR_NO_LICENSE,
                 "%s", command.data);
+        free(command.data);
         return 0;
     } else {
         /* Internal error. */
-- 
2.43.0


From 051e3d5faa401c230deb9fc1e408464f01d76d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:56 +0000
Subject: [PATCH 35/70] fix: release key, certificate and SSL context of a
 tool's connection

---
 src/common/mlle_ssl.c    | 13 ++++++++++---
 src/tool/mlle_ssl_tool.c | 12 +++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 4658c44..28815b1 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -100,20 +100,25 @@ SSL_CTX* create_CTX(char *private_key, int mode)
     if (SSL_CTX_set_cipher_list(ctx, "HIGH:!DSS:!aNULL@STRENGTH") == 0)
     {
         // Error setting ciphers to use.
+        SSL_CTX_free(ctx);
         return 0;
     }
 
     // Create RSA containing the private key.
     if ( (rsa = get_rsa(private_key)) == NULL)
     {
+        SSL_CTX_free(ctx);
         return 0;
     }
 
-    // Connect private key to CTX.
+    // Connect private key to CTX, which keeps a reference of its own.
     if (SSL_CTX_use_RSAPrivateKey(ctx, rsa) == 0)
     {
+        RSA_free(rsa);
+        SSL_CTX_free(ctx);
         return 0;
     }
+    RSA_free(rsa);
 
     return ctx;
 }
@@ -217,7 +222,7 @@ X509 *generate_X509(RSA *rsa)
 
     // Copy RSA to EVP_KEY.
     pkey = EVP_PKEY_new();
-    EVP_PKEY_assign_RSA(pkey, rsa);
+    EVP_PKEY_set1_RSA(pkey, rsa);
 
     x509 = X509_new();
 
@@ -243,8 +248,10 @@ X509 *generate_X509(RSA *rsa)
     // Sign the certificate with our key.
     if ( !X509_sign(x509, pkey, EVP_sha1()) )
     {
-        return NULL;
+        X509_free(x509);
+        x509 = NULL;
     }
+    EVP_PKEY_free(pkey);
 
     return x509;
 }
diff --git a/src/tool/mlle_ssl_tool.c b/src/tool/mlle_ssl_tool.c
index 9599e7d..030cd1f 100644
--- a/src/tool/mlle_ssl_tool.c
+++ b/src/tool/mlle_ssl_tool.c
@@ -49,7 +49,7 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
     BIO *bioWrite = NULL;
     BIO *bioRead = NULL;
     RSA *rsa = NULL;
-    X509 *x509;
+    X509 *x509 = NULL;
     int result = 0;
     DECLARE_PRIVATE_KEY_TOOL();
 
@@ -90,6 +90,9 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
     if ( (bioWrite == NULL) || (bioRead == NULL) )
     {
         mlle_error_set(error, 1, 4, "SSL: Failed to create BIO input/output descriptors.");
+        BIO_free(bioWrite);
+        BIO_free(bioRead);
+        SSL_free(ssl);
         goto cleanup;
     }
 
@@ -97,6 +100,9 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
     if (SSL_use_certificate(ssl, x509) == 0)
     {
         mlle_error_set(error, 1, 5, "SSL: Failed to add X509 certificate.");
+        BIO_free(bioWrite);
+        BIO_free(bioRead);
+        SSL_free(ssl);
         goto cleanup;
     }
 
@@ -115,6 +121,10 @@ int ssl_setup_tool(struct mlle_connections **lve, struct mlle_error **error)
 
 cleanup:
     CLEAR_PRIVATE_KEY_TOOL();
+    // The SSL structure keeps references of its own to these.
+    X509_free(x509);
+    RSA_free(rsa);
+    SSL_CTX_free(ctx);
 
     return result;
 }
-- 
2.43.0


From 9c1ab4c1cd0e65279b77070e4a74ad53262c0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:06 +0000
Subject: [PATCH 36/70] fix: release the key masks of an encryption context

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 94a8149..fd99575 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -41,6 +41,14 @@ mlle_cr_context* mlle_cr_create(const char* basedir) {
 }
 
 void mlle_cr_free(mlle_cr_context* context) {
+    struct mlle_key_mask_map* map_item;
+    struct mlle_key_mask_map* next;
+
+    if (NULL == context) return;
+    HASH_ITER(hh, context->keymask_map, map_item, next) {
+        HASH_DEL(context->keymask_map, map_item);
+        free(map_item);
+    }
     free(context);
 }
 
-- 
2.43.0


From 928b63291b620ada20e87abbb5ad2659edd787d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:05 +0000
Subject: [PATCH 37/70] fix: key masks of parent directories lost from the
 encryption context

---
 src/decryptors/default/src/mlle_cr_encrypt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_encrypt.c b/src/decryptors/default/src/mlle_cr_encrypt.c
index 505a87b..2d6a076 100644
--- a/src/decryptors/default/src/mlle_cr_encrypt.c
+++ b/src/decryptors/default/src/mlle_cr_encrypt.c
@@ -128,6 +128,7 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
                 fprintf(stderr, "Unexpected key mask output when processing %s\n", path);
                 return -1;
             }
+            key_mask_map = context->keymask_map; /* may have got its first item */
         }
 
         /* Create and store key mask for this directory */
@@ -172,6 +173,7 @@ int mlle_mask_key(mlle_cr_context* context, const char* rel_file_path, unsigned
                 free(map_item);
                 return -1;
             }
+            key_mask_map = context->keymask_map; /* may have got its first item */
         }
         if (mlle_log) {
             fprintf(mlle_log, "mlle_mask_key: storing mask based on parent for %s \n", map_item->relpath);
-- 
2.43.0


From d52c05676d94367d80cf0dff1092acc696f86e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:43 +0000
Subject: [PATCH 38/70] fix: packagetool crashes or succeeds when the manifest
 cannot be written

---
 src/packagetool/manifest.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index decc351..486e969 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -183,12 +183,18 @@ int createManifestFile()
 {
     char *path = NULL;
     char pathAndFile[MAX_PATH_LENGTH + 1];
+    int result = 1;
 
     // Add filename to path to .library.
     path = getDotLibraryPath();
     snprintf(pathAndFile, MAX_PATH_LENGTH + 1, "%s/manifest.xml", path);
 
     fd = fopen(pathAndFile, "w");
+    if (fd == NULL)
+    {
+        printf("Error: Couldn't open file %s for writing.\n", pathAndFile);
+        return 0;
+    }
 
     // Add data to file.
     xml_init();
@@ -200,8 +206,19 @@ int createManifestFile()
     addDependencies();
     addFooter();
 
-    fclose(fd);
-    return 1;
+    if (ferror(fd))
+    {
+        result = 0;
+    }
+    if (fclose(fd) != 0)
+    {
+        result = 0;
+    }
+    if (!result)
+    {
+        printf("Error: Couldn't write file %s.\n", pathAndFile);
+    }
+    return result;
 }
 
 
-- 
2.43.0


From 3ae5150b5a7593b313e3844019d98c37f93a34eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:43 +0000
Subject: [PATCH 39/70] fix: packagetool crashes when no temporary folder can
 be made

---
 src/packagetool/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 8763313..d4b696a 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -166,8 +166,8 @@ static char *getTempDirLinux()
 {
     char TEMP_DIR_TEMPLATE[] = "/tmp/TemporaryFolderXXXXXX";
 
-    if (tempStagingFolder == NULL) {
-        tempStagingFolder = strdup(mkdtemp(TEMP_DIR_TEMPLATE));
+    if (tempStagingFolder == NULL && mkdtemp(TEMP_DIR_TEMPLATE) != NULL) {
+        tempStagingFolder = strdup(TEMP_DIR_TEMPLATE);
         DEBUG_PRINT("%s, tempStagingFolder = %s\n", __func__,
                     tempStagingFolder);
     }
-- 
2.43.0


From bc6da04807b0fe77e15f510968d08374a207664b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:54 +0000
Subject: [PATCH 40/70] fix: staged files left behind when packaging fails

---
 src/packagetool/packagetool.c | 25 +++++++++++++++++--------
 src/packagetool/utils.c       |  3 ++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/packagetool/packagetool.c b/src/packagetool/packagetool.c
index ad10914..87448fa 100644
--- a/src/packagetool/packagetool.c
+++ b/src/packagetool/packagetool.c
@@ -38,6 +38,15 @@
 
 extern FILE* mlle_log;
 
+/*
+* Remove the temporary files of a failed packaging.
+*/
+static int packagingFailed(int error)
+{
+    deleteTemporaryStagingFolder();
+    return error;
+}
+
 /*
 * package the library. 
 *
@@ -81,48 +90,48 @@ int doWork(int argc, char **argv)
     // Copy source folder.
     // --------------------
     success = copyFolderStructure();
-    if (!success) { return 2 ; }
+    if (!success) { return packagingFailed(2); }
     // ----------------------------
     // Create the .library folder.
     // ----------------------------
     success = createLibraryFolder();
-    if (!success) { return 3; }
+    if (!success) { return packagingFailed(3); }
     // --------------------------------------------
     // Locate the icon file in the source folder.
     // --------------------------------------------
     success = prepareIconFile();
-    if (!success) { return 4 ; }
+    if (!success) { return packagingFailed(4); }
 
     // -------------------------------------------
     // Copy LVE's (if needed) to .library folder.
     // -------------------------------------------
     success = copyLVE();
-    if (!success) { return 5; }
+    if (!success) { return packagingFailed(5); }
 
 
     // -------------------------------------------
     // Copy Extra files if .library folder exists next to packagetool.
     // -------------------------------------------
     success = copyExtraFiles();
-    if (!success) { return 6; }
+    if (!success) { return packagingFailed(6); }
 
     // ------------------------------
     // Create the manifest.xml file.
     // ------------------------------
     success = createManifestFile();
-    if (!success) { return 7; }
+    if (!success) { return packagingFailed(7); }
 
     // ---------------------------------
     // Encrypt .mo-files to .moc-files.
     // ---------------------------------
     success = encryptFiles();
-    if (!success) { return 8; }
+    if (!success) { return packagingFailed(8); }
 
     // --------------------------
     // Create a zipped archive.
     // --------------------------
     success = createZipArchive();
-    if (!success) { return 9; }
+    if (!success) { return packagingFailed(9); }
 
     // -------------------------------------
     // Delete the temporary source folder.
diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index d4b696a..cb719f0 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -840,7 +840,8 @@ int removeFolder(const char *path)
 int deleteTemporaryStagingFolder()
 {
     // Don't do anyting if directory doesn't exist,
-    if (!fileExists(getTempStagingDirectory())) {
+    if (tempStagingFolder == NULL ||
+        !fileExists(getTempStagingDirectory())) {
         return 1;
     }
 
-- 
2.43.0


From 8d93f5b4db753793ec08fe06a924bcd9f2a41798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:54 +0000
Subject: [PATCH 41/70] fix: incomplete archive left behind when packaging
 fails

---
 src/packagetool/utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index cb719f0..136b3ad 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -1379,6 +1379,10 @@ int createZipArchive()
 #endif
 error:
     closeZipArchive(zip);
+    if (!result && zip != NULL) {
+        // Don't leave an incomplete archive.
+        remove(archiveName);
+    }
     return result;
 }
 
-- 
2.43.0


From 5c9156ecc57b2bf666b24e3428056cee9bde25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:44 +0000
Subject: [PATCH 42/70] fix: file left open when it is too large to read

---
 src/common/mlle_io.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 905234c..ca64799 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -142,6 +142,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
             error, 1, 1,
             "Couldn't find file size for %s. The error message was: %s",
             file_path, strerror(errno));
+        fclose(file);
         return NULL;
     }
     size = stat_info.st_size;
@@ -150,6 +151,7 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
     if (file_buffer == NULL) {
         mlle_error_set(error, 1, 1, "Couldn't allocate memory to read file: %s",
                        file_path);
+        fclose(file);
         return NULL;
     }
 
-- 
2.43.0


From 6d6c12c0c15941d083de27752960b1f1a90e6264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 43/70] fix: no reply for files of 2 GB and more

---
 src/common/mlle_ssl.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 28815b1..7e28c33 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -38,6 +38,9 @@
 #include "mlle_ssl.h"
 #include "mlle_error.h"
 
+/* The most that is written with one call of SSL_write. */
+#define MAX_WRITE_SIZE ((size_t) 1 << 30)
+
 char *global_tool_pub_key;
 
 /*****************************
@@ -266,7 +269,8 @@ X509 *generate_X509(RSA *rsa)
  *      len - the length of the data
  *
  * Returns:
- *      Number of bytes written or -1 if write failed.
+ *      Number of bytes written (of the last part, for messages longer
+ *      than MAX_WRITE_SIZE) or -1 if write failed.
  ********************************************************/
 int ssl_write_message(SSL *ssl, char *message, size_t len)
 {
@@ -274,6 +278,17 @@ int ssl_write_message(SSL *ssl, char *message, size_t len)
     int errorCode = 0;
     char error[SSL_ERROR_BUF_LEN];
 
+    // SSL_write takes the length as an int, write longer messages in parts.
+    while (len > MAX_WRITE_SIZE)
+    {
+        if (ssl_write_message(ssl, message, MAX_WRITE_SIZE) < 0)
+        {
+            return -1;
+        }
+        message += MAX_WRITE_SIZE;
+        len -= MAX_WRITE_SIZE;
+    }
+
     while ((bytes = SSL_write(ssl, message, (int)len)) < 0)
     {
         errorCode = SSL_get_error(ssl, bytes);        
-- 
2.43.0


From 53063371472bed45f4c45513772ba5cc8663152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:56 +0000
Subject: [PATCH 44/70] fix: encrypted files of 2 GB and more crash the LVE

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index fd99575..457c9fb 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -18,6 +18,7 @@
 
 #define _XOPEN_SOURCE 700
 
+#include <limits.h>
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
@@ -315,6 +316,9 @@ int mlle_cr_decrypt(
     if (in) {
         if (in_len < iv_len + mac_len)
             goto error;
+        /* The length of the data must fit in an int below. */
+        if (in_len - iv_len - mac_len > INT_MAX)
+            goto error;
         enc_in = iv_in + iv_len;
         mac_in = iv_in + in_len - mac_len;
         enc_len = (int)(in_len - iv_len - mac_len);
-- 
2.43.0


From 230e04c151c84e7ceb528e9143668c8accf46962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:16 +0000
Subject: [PATCH 45/70] fix: no LVE can be started by a tool without standard
 streams

---
 src/tool/mlle_spawn_posix.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index bf6f2f0..8b0a3ff 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -21,12 +21,44 @@
 #include <sys/types.h>
 #include <unistd.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <string.h>
 #include "mlle_types.h"
 #include "mlle_error.h"
 #include "mlle_spawn.h"
 
 
+/********************************************************************
+ * Create a pipe that does not use the descriptors of the standard
+ * streams, which are free if the tool runs without them.
+ *
+ * Returns:
+ *      0 on success, -1 on failure.
+ *******************************************************************/
+static int
+create_pipe(int fd[2])
+{
+    int i = 0;
+
+    if (pipe(fd) == -1) {
+        return -1;
+    }
+    for (i = 0; i < 2; i++) {
+        if (fd[i] <= STDERR_FILENO) {
+            int moved_fd = fcntl(fd[i], F_DUPFD, STDERR_FILENO + 1);
+
+            if (moved_fd == -1) {
+                close(fd[0]);
+                close(fd[1]);
+                return -1;
+            }
+            close(fd[i]);
+            fd[i] = moved_fd;
+        }
+    }
+    return 0;
+}
+
 /********************************************************************
  * Setup pipes and start up connection to LVE (server) on Linux.
  * 
@@ -58,12 +90,12 @@ mlle_spawn(const char *exec_name,
     }
 
     fflush(NULL);
-    status = pipe(parent_to_child_pipe_fd);
+    status = create_pipe(parent_to_child_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
         return NULL;
     }
-    status = pipe(child_to_parent_pipe_fd);
+    status = create_pipe(child_to_parent_pipe_fd);
     if (status == -1) {
         mlle_error_set_literal(error, 1, 1, "pipe() failed.");
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
-- 
2.43.0


From f53e246fc73ea5a42407b066fdb96c25650a2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:03 +0000
Subject: [PATCH 46/70] fix: files of 2 GB and more cannot be packaged

---
 src/packagetool/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 136b3ad..662ed5d 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -2034,8 +2034,8 @@ int copyFile(char *fromPath, char *toPath)
     int status = 0;
     struct stat info;
     char *data = NULL;
-    int bytes = 0;
-    long buffSize = 0;
+    size_t bytes = 0;
+    size_t buffSize = 0;
     FILE *fdRead = NULL;
     FILE *fdWrite = NULL;
 
-- 
2.43.0


From 1ea026eef77be511e755b4aacea9a81fa6be7ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:25 +0000
Subject: [PATCH 47/70] fix: unexpected reply aborts the tool in hardened
 builds

---
 src/tool/mlle_licensing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index 45b2cf8..dd8b5a8 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -179,7 +179,7 @@ mlle_expect_commands(SSL *ssl,
                     mlle_command_info[command->id].name,
                     mlle_command_info[expected_command_ids[0]].name);
             for (i = 1; i < ncommands; i++) {
-                written_bytes += snprintf(&err_msg[written_bytes], alloc_size,", %s",
+                written_bytes += snprintf(&err_msg[written_bytes], alloc_size - written_bytes, ", %s",
                         mlle_command_info[expected_command_ids[i]].name);
             }
         }
-- 
2.43.0


From 7554f79fb2c51563f961dd0bc681525a9944eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:51 +0000
Subject: [PATCH 48/70] fix: a signal during the handshake makes the start of
 an LVE fail

---
 src/tool/mlle_ssl_tool.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tool/mlle_ssl_tool.c b/src/tool/mlle_ssl_tool.c
index 030cd1f..f1f3fb2 100644
--- a/src/tool/mlle_ssl_tool.c
+++ b/src/tool/mlle_ssl_tool.c
@@ -154,12 +154,18 @@ int tool_perform_handshake(struct mlle_connections **lve, struct mlle_error **er
         return 0;
     }
 
-    // Try to connect with LVE (server).
-    result = SSL_connect((*lve)->ssl);
+    // Try to connect with LVE (server), again if a signal interrupted it.
+    do
+    {
+        ERR_clear_error();
+        result = SSL_connect((*lve)->ssl);
+        errorCode = SSL_get_error((*lve)->ssl, result);
+    }
+    while (result <= 0 && (errorCode == SSL_ERROR_WANT_READ || errorCode == SSL_ERROR_WANT_WRITE));
+
     if (result <= 0)
     {
         // Get reason for handshake error.
-        errorCode = SSL_get_error((*lve)->ssl, result);
         ssl_get_error_string(errorCode, errorString, SSL_ERROR_BUF_LEN);
         mlle_error_set(error, 1, 2, "SSL: Handshake failed. Reason: %s", errorString);
         return 0;
-- 
2.43.0


From c9e96ead893a3de20a6e043081e7b88f792b466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:41 +0000
Subject: [PATCH 49/70] fix: errors of one connection disturb interrupted calls
 of another

---
 src/common/mlle_ssl.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/mlle_ssl.c b/src/common/mlle_ssl.c
index 7e28c33..f597c4a 100644
--- a/src/common/mlle_ssl.c
+++ b/src/common/mlle_ssl.c
@@ -289,6 +289,8 @@ int ssl_write_message(SSL *ssl, char *message, size_t len)
         len -= MAX_WRITE_SIZE;
     }
 
+    // Errors of other connections must not be taken for errors of this one.
+    ERR_clear_error();
     while ((bytes = SSL_write(ssl, message, (int)len)) < 0)
     {
         errorCode = SSL_get_error(ssl, bytes);        
@@ -343,6 +345,9 @@ int ssl_read_message(SSL *ssl, char **messageBuffer, int *errorCode)
     
     while(keepReading)
     {
+        // Errors of other connections must not be taken for errors of this one.
+        ERR_clear_error();
+
         // Read data. Number of bytes read is returned.
         noOfBytes = SSL_read(ssl, &tmpBuffer, MSG_SIZE - 1);
 
-- 
2.43.0


From 5dc5644b294405f0ffaaf26dba8bc6ba5c4c2c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:35 +0000
Subject: [PATCH 50/70] fix: a directory of size 0 is served as an empty file

---
 src/common/mlle_io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index ca64799..62dee7d 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -145,6 +145,13 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
         fclose(file);
         return NULL;
     }
+    if ((stat_info.st_mode & S_IFMT) == S_IFDIR) {
+        /* Some file systems give a directory the size 0, so reading it would not fail. */
+        mlle_error_set(error, 1, 1, "Couldn't read file %s. It is a directory.",
+                       file_path);
+        fclose(file);
+        return NULL;
+    }
     size = stat_info.st_size;
     /* Allocate buffer. */
     file_buffer = calloc(size + 1, 1);
-- 
2.43.0


From 9ecea70adb1a2c902b0c059b360d59d3b4d34e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:49 +0000
Subject: [PATCH 51/70] fix: an LVE started later keeps the connection to
 another one open

The pipe ends of the tool were inherited by LVEs started later. When the tool
gave up a connection while its LVE had more to send, that LVE never noticed and
stayed behind, waiting.
---
 src/tool/mlle_spawn_posix.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 8b0a3ff..549cd71 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -103,6 +103,10 @@ mlle_spawn(const char *exec_name,
         return NULL;
     }
 
+    // LVEs started later must not keep the connection to this one open.
+    fcntl(parent_to_child_pipe_fd[PIPE_WRITE_INDEX], F_SETFD, FD_CLOEXEC);
+    fcntl(child_to_parent_pipe_fd[PIPE_READ_INDEX], F_SETFD, FD_CLOEXEC);
+
     child_pid = fork();
     switch (child_pid) {
     case -1:
-- 
2.43.0


From 2e5a371f0a8bcd57e2d9ea0b7fb2c03604ccaf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:49 +0000
Subject: [PATCH 52/70] fix: no reply when there is no memory for a copy of the
 file

The LVE sent nothing at all, and the tool waited for ever.
---
 src/common/mlle_io.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 62dee7d..37ea116 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -228,6 +228,15 @@ void mlle_send_length_form(SSL *ssl, enum mlle_protocol_command_id command_id,
     output_length = NUMBER_FORM_BUFFER_SIZE + length + 1;
     output = malloc(output_length);
     if (output == NULL) {
+        // Send the command and the data one by one, so that they need no buffer.
+        char header[NUMBER_FORM_BUFFER_SIZE] = {0};
+
+        print_result = snprintf(header, NUMBER_FORM_BUFFER_SIZE, "%s " MLLE_SIZE_T_FMT "\n",
+                                mlle_command_info[command_id].name, length);
+        if (print_result >= 0 && ssl_write_message(ssl, header, strlen(header)) >= 0
+            && length > 0) {
+            ssl_write_message(ssl, (char *)data, length);
+        }
         return;
     }
 
-- 
2.43.0


From 168ec0519957ea10b99242970d88cec4d36ea290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:25 +0000
Subject: [PATCH 53/70] fix: a file replaced while it is read is served with
 the size of the other one

---
 src/common/mlle_io.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/mlle_io.c b/src/common/mlle_io.c
index 37ea116..d4c73c6 100644
--- a/src/common/mlle_io.c
+++ b/src/common/mlle_io.c
@@ -124,8 +124,8 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
 #endif
     }
 
-    status = stat(file_path, &stat_info);
 #ifdef _WIN32
+    status = stat(file_path, &stat_info);
     // stat cannot handle \\?\ prefix on Windows
     if ((status == -1) && (fseek(file, 0, SEEK_END) == 0)) {
         long int pos = ftell(file);
@@ -135,6 +135,9 @@ char *mlle_io_read_file(const char *file_path, size_t *file_size,
             stat_info.st_size = pos;
         }
     }
+#else
+    // The size of the open file, which the path may not name any more.
+    status = fstat(fileno(file), &stat_info);
 #endif
 
     if (status == -1) {
-- 
2.43.0


From be611634769436a9573b63751f1eecd7cbd0370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:25 +0000
Subject: [PATCH 54/70] fix: a request longer than a record gets several
 replies

---
 src/tool/mlle_licensing.c | 53 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/tool/mlle_licensing.c b/src/tool/mlle_licensing.c
index dd8b5a8..09af2f4 100644
--- a/src/tool/mlle_licensing.c
+++ b/src/tool/mlle_licensing.c
@@ -134,6 +134,35 @@ mlle_expect_command(SSL *ssl,
     return 1;
 }
 
+/**********************************************************
+ * Send a command with a string to the LVE. The LVE takes each
+ * record for a message, so one that does not fit in a record
+ * would get several replies, and is not sent.
+ *
+ * Returns:
+ *      1 - Operation was successful.
+ *      0 - The string is too long.
+ *********************************************************/
+static int
+mlle_send_request(SSL *ssl,
+                  enum mlle_protocol_command_id command_id,
+                  const char *string,
+                  struct mlle_error **error)
+{
+    size_t length = strlen(string);
+    int header_length = snprintf(NULL, 0, "%s " MLLE_SIZE_T_FMT "\n",
+            mlle_command_info[command_id].name, length);
+
+    if (header_length < 0 || length > (size_t) (SSL3_RT_MAX_PLAIN_LENGTH - header_length)) {
+        mlle_error_set(error, MLLE_ERROR_DOMAIN_TOOL, 1,
+                "The argument of command %s is too long.",
+                mlle_command_info[command_id].name);
+        return 0;
+    }
+    mlle_send_string(ssl, command_id, string);
+    return 1;
+}
+
 static int
 mlle_expect_commands(SSL *ssl,
                     size_t ncommands,
@@ -265,7 +294,9 @@ int mlle_tool_libpath(const struct mlle_connections *connections,
 
     assert(absolute_path != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_LIB_CMD, absolute_path);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_LIB_CMD, absolute_path, error)) {
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD, &command, error)) {
         return 0;
     }
@@ -300,7 +331,9 @@ int mlle_tool_feature(const struct mlle_connections *connections,
 
     assert(feature != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_FEATURE_CMD, feature);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_FEATURE_CMD, feature, error)) {
+        return 0;
+    }
     if (!mlle_expect_commands(connections->ssl, 2, expected_commands,
             &command, error))
     {
@@ -332,7 +365,9 @@ mlle_tool_returnfeature(const struct mlle_connections *connections,
 
     assert(feature != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNFEATURE_CMD, feature);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_RETURNFEATURE_CMD, feature, error)) {
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD,
             &command, error))
     {
@@ -356,7 +391,9 @@ mlle_tool_license(const struct mlle_connections *connections,
 
     assert(package != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_LICENSE_CMD, package);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_LICENSE_CMD, package, error)) {
+        return 0;
+    }
     if (!mlle_expect_commands(connections->ssl, 3, expected_commands,
             &command, error))
     {
@@ -390,7 +427,9 @@ mlle_tool_returnlicense(const struct mlle_connections *connections,
 
     assert(package != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_RETURNLICENSE_CMD, package);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_RETURNLICENSE_CMD, package, error)) {
+        return 0;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_YES_CMD,
             &command, error))
     {
@@ -410,7 +449,9 @@ mlle_tool_file(const struct mlle_connections *connections,
 
     assert(file_path != NULL);
 
-    mlle_send_string(connections->ssl, MLLE_PROTOCOL_FILE_CMD, file_path);
+    if (!mlle_send_request(connections->ssl, MLLE_PROTOCOL_FILE_CMD, file_path, error)) {
+        return NULL;
+    }
     if (!mlle_expect_command(connections->ssl, MLLE_PROTOCOL_FILECONT_CMD,
             &command, error))
     {
-- 
2.43.0


From ead7207a36e3b203be4c9e169f03d13becdb88d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:36 +0000
Subject: [PATCH 55/70] fix: a process is left for each LVE that ended

---
 src/tool/mlle_spawn_posix.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index 549cd71..b40632f 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -19,6 +19,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <sys/types.h>
+#include <sys/wait.h>
 #include <unistd.h>
 #include <errno.h>
 #include <fcntl.h>
@@ -73,6 +74,7 @@ mlle_spawn(const char *exec_name,
            struct mlle_error **error)
 {
     pid_t child_pid = -1;
+    pid_t ended_pid = -1;
     int parent_to_child_pipe_fd[2] = { -1, -1 };
     int child_to_parent_pipe_fd[2] = { -1, -1 };
     int status = 0;
@@ -118,6 +120,13 @@ mlle_spawn(const char *exec_name,
         return NULL;
 
     case 0:
+        // This process ends at once, and another one becomes the LVE, so that no
+        // process is left for the tool to wait for after the LVE has ended.
+        child_pid = fork();
+        if (child_pid != 0) {
+            _exit(child_pid == -1 ? 2 : 0);
+        }
+
         close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
         close(STDIN_FILENO);
         if (dup2(parent_to_child_pipe_fd[PIPE_READ_INDEX], STDIN_FILENO) == -1) {
@@ -140,6 +149,18 @@ mlle_spawn(const char *exec_name,
         break;
 
     default:
+        do {
+            ended_pid = waitpid(child_pid, &status, 0);
+        } while (ended_pid == -1 && errno == EINTR);
+        if (ended_pid == child_pid && status != 0) {
+            mlle_error_set_literal(error, 1, 1, "fork() failed.");
+            close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
+            close(parent_to_child_pipe_fd[PIPE_WRITE_INDEX]);
+            close(child_to_parent_pipe_fd[PIPE_READ_INDEX]);
+            close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
+            return NULL;
+        }
+
         close(parent_to_child_pipe_fd[PIPE_READ_INDEX]);
         close(child_to_parent_pipe_fd[PIPE_WRITE_INDEX]);
         connections = calloc(1, sizeof(*connections));
-- 
2.43.0


From 7ac75ae2fd1fb538096267c53f7f41e01174b0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:31 +0000
Subject: [PATCH 56/70] fix: encrypting or decrypting a file onto itself
 destroys it

encrypt_file and decrypt_file opened the output for writing, and so emptied it,
also if it was the input under the same or another name.
---
 src/encrypt_decrypt/decrypt_file.c | 15 +++++++++++++++
 src/encrypt_decrypt/encrypt_file.c | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/encrypt_decrypt/decrypt_file.c b/src/encrypt_decrypt/decrypt_file.c
index 27d50d2..fa1e2c7 100644
--- a/src/encrypt_decrypt/decrypt_file.c
+++ b/src/encrypt_decrypt/decrypt_file.c
@@ -22,6 +22,9 @@
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
+#ifndef _WIN32
+#include <sys/stat.h>
+#endif
 
 #include <openssl/conf.h>
 #include <openssl/evp.h>
@@ -47,6 +50,10 @@ int main(int argc, char** argv)
     int bytes = 0;
     mlle_cr_context *c;
     char path[4096];
+#ifndef _WIN32
+    struct stat in_info;
+    struct stat out_info;
+#endif
 
     mlle_log = stderr;
 
@@ -70,6 +77,14 @@ int main(int argc, char** argv)
     in = fopen(path, "rb");
     if (in == NULL)
         fprintf(stderr, "Could not open file %s for reading. Error message was: %s\n", path, strerror(errno));
+#ifndef _WIN32
+    /* Opening the input file for writing would destroy it. */
+    if (in != NULL && fstat(fileno(in), &in_info) == 0 && stat(argv[3], &out_info) == 0
+        && in_info.st_dev == out_info.st_dev && in_info.st_ino == out_info.st_ino) {
+        fprintf(stderr, "The file to decrypt, %s, and the cleartext file are the same\n", path);
+        return 1;
+    }
+#endif
     out = fopen(argv[3], "wb");
     if (out == NULL)
         fprintf(stderr, "Could not open file %s for writing. Error message was: %s\n", argv[3], strerror(errno));
diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index 8e9c6b1..b381110 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -22,6 +22,9 @@
 #include <stdio.h>
 #include <string.h>
 #include <errno.h>
+#ifndef _WIN32
+#include <sys/stat.h>
+#endif
 
 #include <openssl/conf.h>
 #include <openssl/evp.h>
@@ -46,6 +49,10 @@ int main(int argc, char** argv)
     char* destdir = 0;
     char encrypted[4096];
     mlle_cr_context* c;
+#ifndef _WIN32
+    struct stat in_info;
+    struct stat out_info;
+#endif
 
     mlle_log = stderr;
 	
@@ -103,6 +110,14 @@ int main(int argc, char** argv)
         strcpy(encrypted, fname);
     }
     
+#ifndef _WIN32
+    /* Opening the input file for writing would destroy it. */
+    if (fstat(fileno(in), &in_info) == 0 && stat(pathdest, &out_info) == 0
+        && in_info.st_dev == out_info.st_dev && in_info.st_ino == out_info.st_ino) {
+        fprintf(stderr, "The file to encrypt, %s, and the encrypted file are the same\n", argv[1]);
+        exit(2);
+    }
+#endif
     out = fopen(pathdest, "wb");
     if (out == NULL) {
         fprintf(stderr, "Could not open file %s for writing. Error message was: %s\n", pathdest, strerror(errno));
-- 
2.43.0


From cc9e7aaafb0e2f0228422c9bb446f8873b95ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:45 +0000
Subject: [PATCH 57/70] fix: packagetool takes any first character for the '-'
 of an option

The first character of an argument was skipped without a look at it, so
that "xtitle" or " title" was the option -title.
---
 src/packagetool/arguments.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/packagetool/arguments.c b/src/packagetool/arguments.c
index 71f3835..7cbf435 100644
--- a/src/packagetool/arguments.c
+++ b/src/packagetool/arguments.c
@@ -213,13 +213,9 @@ int validateArguments(int noOfArguments, char **arguments)
     for (i = 1; i < noOfArguments; i++)
     {
         ptr = arguments[i];
-        if (*ptr)
-        {
-            ++ptr;
-        }
 
         // Is the argument valid.
-        if (ptr && *ptr && lookupArgument(ptr))
+        if (*ptr++ == '-' && lookupArgument(ptr))
         {
             // Safety check. If user trying to add an argument twice.
             if (containsKey(ptr))
-- 
2.43.0


From 3880a9d57fa4d30b992fc4a46b393624ecda1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:45 +0000
Subject: [PATCH 58/70] fix: line ends and tabs in the manifest's values are
 changed when read

An XML parser reads a line feed, carriage return or tab in an attribute
as a space, and a carriage return in text as a line feed, unless they are
written as character references.
---
 src/packagetool/manifest.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 486e969..32e0e1e 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -66,6 +66,15 @@ static void print_escaped_text(const char* text)
         case '&':
             fprintf(fd, "&amp;");
             break;
+        case '\t':
+        case '\n':
+            // As they are, these would be read as spaces in an attribute.
+            fprintf(fd, xml_in_attributes ? "&#%d;" : "%c", text[i]);
+            break;
+        case '\r':
+            // As it is, this would be read as a line feed.
+            fprintf(fd, "&#13;");
+            break;
         default:
             fprintf(fd, "%c", text[i]);
             break;
-- 
2.43.0


From ada746886ed216f3336e2926d775687cc63a3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:45 +0000
Subject: [PATCH 59/70] fix: a tools or dependencies file that cannot be read
 is left out

packagetool made the archive, with exit status 0, without the contents of
a -tools or -dependencies file that it could not open or read, for
instance because it may not read it or because it is a directory.
---
 src/packagetool/manifest.c | 23 ++++++++++++++++-------
 src/packagetool/manifest.h |  6 +++---
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/packagetool/manifest.c b/src/packagetool/manifest.c
index 32e0e1e..f750175 100644
--- a/src/packagetool/manifest.c
+++ b/src/packagetool/manifest.c
@@ -211,8 +211,8 @@ int createManifestFile()
     addLibraryHeader();
     addEncryption();
     addIcon();
-    addTools();
-    addDependencies();
+    result = addTools();
+    result = addDependencies() && result;
     addFooter();
 
     if (ferror(fd))
@@ -384,15 +384,16 @@ void addIcon()
  * These tools are read from an xml file and pasted into
  * the manifest.xml file.
  *************************************************************/
-void addTools()
+int addTools()
 {
     char *path = NULL;
 
     // Get value from command line argument.
     if ( (containsKey(ARGUMENT_TOOLS_FILE)) && (path = getValueOf(ARGUMENT_TOOLS_FILE)) )
     {
-        copyFileInformation(path);
+        return copyFileInformation(path);
     }
+    return 1;
 }
 
 
@@ -401,15 +402,16 @@ void addTools()
  * These dependencies are read from an xml file and pasted into
  * the manifest.xml file.
  ***************************************************************/
-void addDependencies()
+int addDependencies()
 {
     char *path = NULL;
 
     // Get value from command line argument.
     if ( (containsKey(ARGUMENT_DEPENDENCIES_FILE)) && (path = getValueOf(ARGUMENT_DEPENDENCIES_FILE)) )
     {
-        copyFileInformation(path);
+        return copyFileInformation(path);
     }
+    return 1;
 }
 
 /********************************
@@ -465,8 +467,9 @@ char *extractPlatform(char *fileName)
  * Copy everything from an xml-file apart from the first line
  * and paste it into the manifest.xml file.
  ***************************************************************/
-void copyFileInformation(char *path)
+int copyFileInformation(char *path)
 {
+    int result = 0;
     FILE *xmlfile;
     int ch;
     int firstLine = 1;
@@ -494,7 +497,13 @@ void copyFileInformation(char *path)
         {
             putc('\n', fd);
         }
+        result = !ferror(xmlfile);
         fclose(xmlfile);
     }
+    if (!result)
+    {
+        printf("Error: Couldn't read file %s.\n", path);
+    }
     xml_on_new_line = 1;
+    return result;
 }
diff --git a/src/packagetool/manifest.h b/src/packagetool/manifest.h
index dc85627..2fac498 100644
--- a/src/packagetool/manifest.h
+++ b/src/packagetool/manifest.h
@@ -55,14 +55,14 @@ void addEncryption();
  * These tools are read from an xml file and pasted into
  * the manifest.xml file.
  *************************************************************/
-void addTools();
+int addTools();
 
 /****************************************************************
  * This method add libraries that library depends on.
  * These dependencies are read from an xml file and pasted into
  * the manifest.xml file.
  ***************************************************************/
-void addDependencies();
+int addDependencies();
 
 /*******************************
  * Add the footer to the file.
@@ -87,4 +87,4 @@ char *extractPlatform(char *filename);
  * Parameters:
  *      path - path, including filename, to the xml-file.
  ***************************************************************/
-void copyFileInformation(char *path);
+int copyFileInformation(char *path);
-- 
2.43.0


From dfc3e1763e2c9bbeed1acf2abf48b4d8d0e715ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:45 +0000
Subject: [PATCH 60/70] fix: the manifest may name another file than the given
 icon

Only the name of the -icon file was used: when several files in the
library have that name, the one that readdir returns first became the
icon. Take the given file if it lies in the library.
---
 src/packagetool/utils.c | 46 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 662ed5d..8e072e3 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -656,6 +656,49 @@ int prepareIconFile()
     return 1;
 }
 
+#ifndef WIN32
+/*************************************************
+ * If the given icon file lies in the library, set
+ * the path to the copy of it.
+ *************************************************/
+static void locateGivenIcon(char *icon, const char *filename)
+{
+    char *dir = NULL;
+    char *lib = realpath(getValueOf(ARGUMENT_LIBRARY_PATH), NULL);
+    char *path = NULL;
+    size_t len = 0;
+    struct stat info;
+
+    if (filename > icon) {
+        path = strdup(icon);
+        if (path != NULL) {
+            path[filename - icon] = '\0';
+            dir = realpath(path, NULL);
+            free(path);
+        }
+    } else {
+        dir = realpath(".", NULL);
+    }
+
+    if (lib != NULL && dir != NULL && strncmp(dir, lib, strlen(lib)) == 0 &&
+        (dir[strlen(lib)] == '/' || dir[strlen(lib)] == '\0')) {
+        len = strlen(getCopiedSourcePath()) + strlen(dir) + strlen(filename) + 2;
+        path = malloc(len);
+        if (path != NULL) {
+            snprintf(path, len, "%s%s/%s", getCopiedSourcePath(),
+                     dir + strlen(lib), filename);
+            if (stat(path, &info) == 0 && S_ISREG(info.st_mode)) {
+                pathToIcon = path;
+            } else {
+                free(path);
+            }
+        }
+    }
+    free(dir);
+    free(lib);
+}
+#endif
+
 /*************************************************
  * Locate the icon file in the source directory.
  *************************************************/
@@ -682,7 +725,8 @@ int locateIconFile()
     // Result is always 1.
     result = findFileWin32(filename, getCopiedSourcePath());
 #else
-    result = findFileLinux(filename, getCopiedSourcePath());
+    locateGivenIcon(value, filename);
+    result = pathToIcon != NULL || findFileLinux(filename, getCopiedSourcePath());
 #endif
 
     // Abort if we didn't find the file.
-- 
2.43.0


From 8385d3a12dc2630c17197caca16ad25a18d674d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:14 +0000
Subject: [PATCH 61/70] fix: a command line that is cut or contains NUL is
 taken for a complete one

The tool library dropped the last byte of a message without a line feed,
so that the reply "YESX" was YES and "VERSION 12" was version 1, and both
sides read a line only up to the first NUL, so that "YES<NUL>X" was YES.
The format of all messages demands the line feed.
---
 src/common/mlle_utils.c | 22 ++++++++++++++++++++++
 src/common/mlle_utils.h |  6 ++++++
 src/lve/mlle_lve.c      |  5 +++++
 3 files changed, 33 insertions(+)

diff --git a/src/common/mlle_utils.c b/src/common/mlle_utils.c
index f5a8ab5..00a963c 100644
--- a/src/common/mlle_utils.c
+++ b/src/common/mlle_utils.c
@@ -79,6 +79,21 @@ size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_l
     return data_len;
 }
 
+/*****************************************************
+ * Check that a message starts with a complete line,
+ * which ends with a line feed and contains no NUL.
+ *
+ * Returns:
+ *      1 - the line is complete.
+ *      0 - it is not.
+ ****************************************************/
+int mlle_has_command_line(const char *buffer, size_t buffer_len)
+{
+    const char *line_end = memchr(buffer, '\n', buffer_len);
+
+    return line_end != NULL && memchr(buffer, '\0', line_end - buffer) == NULL;
+}
+
 /****************************************
  * Read a command.
  *
@@ -109,6 +124,13 @@ int mlle_read_command(SSL *ssl,
         return 0;
     }
 
+    if (!mlle_has_command_line(messageBuffer, bytesRead))
+    {
+        mlle_error_set_literal(error, 1, 1, "Parse error. The message has no complete command line.");
+        free(messageBuffer);
+        return 0;
+    }
+
     // Create a temporary array.
     token_buffer = calloc(bytesRead + 1, 1);
     if (token_buffer == NULL) 
diff --git a/src/common/mlle_utils.h b/src/common/mlle_utils.h
index d5f6290..48403ff 100644
--- a/src/common/mlle_utils.h
+++ b/src/common/mlle_utils.h
@@ -39,6 +39,12 @@ extern "C" {
  ***********************************************************/
 size_t extract_data(struct mlle_command **command, char *buffer, size_t buffer_len);
 
+/************************************************************
+ * Check that a message starts with a complete command line,
+ * which ends with a line feed and contains no NUL.
+ ***********************************************************/
+int mlle_has_command_line(const char *buffer, size_t buffer_len);
+
 int mlle_read_command(SSL *ssl,
                   struct mlle_command *command,
                   struct mlle_error **error);
diff --git a/src/lve/mlle_lve.c b/src/lve/mlle_lve.c
index 6b8e885..1cdf09d 100644
--- a/src/lve/mlle_lve.c
+++ b/src/lve/mlle_lve.c
@@ -201,6 +201,11 @@ int mlle_lve_receive(struct mlle_lve_ctx *lve_ctx)
             mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
                     error_msg);
         }
+        else if (!mlle_has_command_line(messageBuffer, (size_t) bytesRead))
+        {
+            mlle_send_error(lve_ctx->ssl, MLLE_PROTOCOL_COMMAND_NOT_UNDERSTOOD_ERROR,
+                    "Parse error. The message has no complete command line.");
+        }
         else
         {
             // Create a temporary buffer for tokens.
-- 
2.43.0


From ccefa9eb81881906bd7dd63a24b50e8083fa739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:52 +0000
Subject: [PATCH 62/70] fix: packagetool leaves out all files on file systems
 that do not tell entry types

---
 src/packagetool/utils.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index 8e072e3..ffaf6dd 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -439,6 +439,24 @@ int createLibraryFolder()
     return 1;
 }
 
+#ifndef WIN32
+/*****************************************************
+ * Get the type of a directory entry, which some file
+ * systems don't tell together with its name.
+ ****************************************************/
+static unsigned char entryType(DIR *d, const struct dirent *entry)
+{
+    struct stat info;
+
+    if (entry->d_type == DT_UNKNOWN &&
+        fstatat(dirfd(d), entry->d_name, &info, AT_SYMLINK_NOFOLLOW) == 0) {
+        return S_ISDIR(info.st_mode) ? DT_DIR
+               : S_ISREG(info.st_mode) ? DT_REG : DT_UNKNOWN;
+    }
+    return entry->d_type;
+}
+#endif
+
 #ifndef WIN32
 /*****************************************
  * Copy file permissions from file.
@@ -1107,7 +1125,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                 }
 
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (entryType(d, dir) == DT_DIR) {
                     // Use recursive to check the folder we found.
                     if (!encryptDirectoryLinux(topLevelPath, searchPath,
                                                context)) {
@@ -1116,7 +1134,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (entryType(d, dir) == DT_REG) {
                     // Encrypt Modelica files.
                     if (isModelicaFile(dir->d_name)) {
                         result = encryptFile(context, topLevelPath, searchPath);
@@ -1171,7 +1189,7 @@ int findFileLinux(const char *filename, const char *path)
                 }
 
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (entryType(d, dir) == DT_DIR) {
                     // Use recursive to check the folder we found.
                     if (findFileLinux(filename, searchPath)) {
                         result = 1;
@@ -1179,7 +1197,7 @@ int findFileLinux(const char *filename, const char *path)
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (entryType(d, dir) == DT_REG) {
                     // Find a specific file.
                     if (strcmp(dir->d_name, filename) == 0) {
                         if (pathToIcon == NULL) {
@@ -1592,7 +1610,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
                 // printf("zip: searchpath: %s\n", searchPath);
 
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (entryType(d, dir) == DT_DIR) {
                     // Use recursive to check the folder we found.
                     result = zipDirectoryLinux(zip, searchPath, archiveName,
                                                encrypted);
@@ -1601,7 +1619,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (entryType(d, dir) == DT_REG) {
                     // -----------------------------------------------------------------
                     // Only add file to archive when:
                     // 1. Files are not encrypted.
@@ -2033,7 +2051,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                 }
 
                 // Have we found a folder?
-                if (dir->d_type == DT_DIR) {
+                if (entryType(d, dir) == DT_DIR) {
 
                     snprintf(searchPathTo, MAX_PATH_LENGTH, "%s/%s", toPath,
                              dir->d_name);
@@ -2051,7 +2069,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
                     }
                 }
                 // Or a file?
-                else if (dir->d_type == DT_REG) {
+                else if (entryType(d, dir) == DT_REG) {
                     // printf("Filnamn: %s\n", dir->d_name);
 
                     // file in new location.
-- 
2.43.0


From 37c907627448c4f2c5a61340caba572dd277d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:46 +0000
Subject: [PATCH 63/70] fix: packagetool leaves files out when a directory
 cannot be read to its end

---
 src/packagetool/utils.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index ffaf6dd..b7604d9 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -440,6 +440,23 @@ int createLibraryFolder()
 }
 
 #ifndef WIN32
+/*****************************************************
+ * Read the next entry of a directory. Sets result to 0
+ * if that fails before the end of the directory.
+ ****************************************************/
+static struct dirent *nextEntry(DIR *d, int *result)
+{
+    struct dirent *entry = NULL;
+
+    errno = 0;
+    entry = readdir(d);
+    if (entry == NULL && errno != 0) {
+        printf("Error: Failed to read directory: %s\n", strerror(errno));
+        *result = 0;
+    }
+    return entry;
+}
+
 /*****************************************************
  * Get the type of a directory entry, which some file
  * systems don't tell together with its name.
@@ -1111,7 +1128,7 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
     }
 
     if (result && (d = opendir(fullPath))) {
-        while ((dir = readdir(d)) != NULL && (result == 1)) {
+        while ((dir = nextEntry(d, &result)) != NULL && (result == 1)) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
@@ -1174,7 +1191,7 @@ int findFileLinux(const char *filename, const char *path)
     snprintf(searchPath, MAX_PATH_LENGTH, "%s", path);
 
     if ((d = opendir(searchPath))) {
-        while ((dir = readdir(d)) != NULL) {
+        while ((dir = nextEntry(d, &result)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -1593,7 +1610,7 @@ int zipDirectoryLinux(struct zip_t *zip, char *path, char *archiveName,
 
     if ((d = opendir(searchPath))) {
         result = 1; // return 'success' for empty directory
-        while ((dir = readdir(d)) != NULL) {
+        while ((dir = nextEntry(d, &result)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0) {
@@ -2035,7 +2052,7 @@ int copyDirectoryLinux(char *fromPath, char *toPath)
     // printf("searchPath: %s\n", searchPath);
 
     if ((d = opendir(searchPath))) {
-        while ((dir = readdir(d)) != NULL) {
+        while ((dir = nextEntry(d, &result)) != NULL) {
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
-- 
2.43.0


From b0ffd5d314da4d9d323d081f65a78b83f0fa61f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:02 +0000
Subject: [PATCH 64/70] fix: an LVE keeps connections that other threads of the
 tool open open

---
 src/tool/mlle_spawn_posix.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tool/mlle_spawn_posix.c b/src/tool/mlle_spawn_posix.c
index b40632f..334b5e0 100644
--- a/src/tool/mlle_spawn_posix.c
+++ b/src/tool/mlle_spawn_posix.c
@@ -14,7 +14,11 @@
     along with this program. If not, contact Modelon AB <http://www.modelon.com>.
 */
 
+#if defined(__linux__)
+#define _GNU_SOURCE /* needed for pipe2 */
+#else
 #define _XOPEN_SOURCE 700
+#endif
 #include <stddef.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -31,7 +35,9 @@
 
 /********************************************************************
  * Create a pipe that does not use the descriptors of the standard
- * streams, which are free if the tool runs without them.
+ * streams, which are free if the tool runs without them. Programs that
+ * are started (an LVE by another thread, say) do not get its ends, for
+ * they would keep the connection open.
  *
  * Returns:
  *      0 on success, -1 on failure.
@@ -41,12 +47,20 @@ create_pipe(int fd[2])
 {
     int i = 0;
 
+#if defined(__linux__)
+    if (pipe2(fd, O_CLOEXEC) == -1) {
+        return -1;
+    }
+#else
     if (pipe(fd) == -1) {
         return -1;
     }
+    fcntl(fd[0], F_SETFD, FD_CLOEXEC);
+    fcntl(fd[1], F_SETFD, FD_CLOEXEC);
+#endif
     for (i = 0; i < 2; i++) {
         if (fd[i] <= STDERR_FILENO) {
-            int moved_fd = fcntl(fd[i], F_DUPFD, STDERR_FILENO + 1);
+            int moved_fd = fcntl(fd[i], F_DUPFD_CLOEXEC, STDERR_FILENO + 1);
 
             if (moved_fd == -1) {
                 close(fd[0]);
@@ -105,10 +119,6 @@ mlle_spawn(const char *exec_name,
         return NULL;
     }
 
-    // LVEs started later must not keep the connection to this one open.
-    fcntl(parent_to_child_pipe_fd[PIPE_WRITE_INDEX], F_SETFD, FD_CLOEXEC);
-    fcntl(child_to_parent_pipe_fd[PIPE_READ_INDEX], F_SETFD, FD_CLOEXEC);
-
     child_pid = fork();
     switch (child_pid) {
     case -1:
-- 
2.43.0


From 0ca1d0c1328c0dcd09e9feea379b2e27f575f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:18 +0000
Subject: [PATCH 65/70] fix: licences are not returned when the tool ends while
 the LVE sends

---
 src/lve/lve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lve/lve.c b/src/lve/lve.c
index 0801760..bfe6674 100644
--- a/src/lve/lve.c
+++ b/src/lve/lve.c
@@ -20,6 +20,9 @@
 #include <stddef.h>
 #include <stdio.h>
 #include <stdlib.h>
+#ifndef _WIN32
+#include <signal.h>
+#endif
 
 /* libcrypto-compat.h must be first */
 #include "asprintf.h"
@@ -290,6 +293,11 @@ int main(int argc, char **argv)
     } else if (checkout_feature != NULL && libpath != NULL) {
         result = _checkout_feature(&lve_ctx, checkout_feature, libpath);
     } else {
+#ifndef _WIN32
+        // The licences have to be returned even if the tool ends while a
+        // message is sent to it.
+        signal(SIGPIPE, SIG_IGN);
+#endif
         mlle_log_open("SEMLA_LVE_LOG_FILE");
 
         mlle_lve_init(&lve_ctx);
-- 
2.43.0


From 8c57a87f2367f1688f602de5736c60071de3ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:52 +0000
Subject: [PATCH 66/70] fix: a command after an empty line is taken for the
 first line

---
 src/common/mlle_parse_command.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/mlle_parse_command.c b/src/common/mlle_parse_command.c
index ea0dd9d..1ae2cb0 100644
--- a/src/common/mlle_parse_command.c
+++ b/src/common/mlle_parse_command.c
@@ -74,7 +74,9 @@ size_t mlle_tokenize(char *string,
 
     // Get a substring up to the newline character.
     // This is the command part we want to tokenize.
-    current_string = strtok_r(string, "\n", &next_char);
+    // It is empty if the message starts with a newline.
+    current_string = string;
+    current_string[strcspn(current_string, "\n")] = '\0';
 
     // Get the tokens.
     current_token = strtok_r(current_string, " ", &next_char);
-- 
2.43.0


From 1f7b29714160441102ba71e5cfa745329ae6c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:33 +0000
Subject: [PATCH 67/70] fix: packagetool leaves files called like package.mo
 but for case out of the archive

---
 src/packagetool/utils.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/packagetool/utils.c b/src/packagetool/utils.c
index b7604d9..7f1056d 100644
--- a/src/packagetool/utils.c
+++ b/src/packagetool/utils.c
@@ -472,6 +472,25 @@ static unsigned char entryType(DIR *d, const struct dirent *entry)
     }
     return entry->d_type;
 }
+
+/*****************************************************
+ * Check if the name of a file or directory differs from
+ * package.mo in case and, as file names are case sensitive,
+ * it is not the package.mo of its directory.
+ ****************************************************/
+static int isOtherPackageFile(DIR *d, const struct dirent *entry)
+{
+    struct stat info;
+    struct stat package;
+    unsigned char type = entryType(d, entry);
+
+    return (type == DT_REG || type == DT_DIR) &&
+           strcmp(entry->d_name, "package.mo") != 0 &&
+           strcasecmp(entry->d_name, "package.mo") == 0 &&
+           !(fstatat(dirfd(d), entry->d_name, &info, 0) == 0 &&
+             fstatat(dirfd(d), "package.mo", &package, 0) == 0 &&
+             info.st_dev == package.st_dev && info.st_ino == package.st_ino);
+}
 #endif
 
 #ifndef WIN32
@@ -1129,6 +1148,12 @@ int encryptDirectoryLinux(const char *topLevelPath, const char *relPath,
 
     if (result && (d = opendir(fullPath))) {
         while ((dir = nextEntry(d, &result)) != NULL && (result == 1)) {
+            if (isOtherPackageFile(d, dir)) {
+                printf("Error: Cannot encrypt %s in %s, its name differs from "
+                       "package.mo only in case.\n", dir->d_name, fullPath);
+                result = 0;
+                break;
+            }
             // The first two directories are always "." and "..".
             if (strcmp(dir->d_name, ".") != 0 &&
                 strcmp(dir->d_name, "..") != 0 &&
-- 
2.43.0


From 45db6cfc3f357cb9ed73072e5938c5568918dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:29 +0000
Subject: [PATCH 68/70] fix: a package.moc that cannot be read is taken for a
 missing one

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 22 ++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index 457c9fb..eeaebc1 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -18,10 +18,13 @@
 
 #define _XOPEN_SOURCE 700
 
+#include <errno.h>
 #include <limits.h>
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 #include <openssl/evp.h>
 #include <openssl/hmac.h>
 #include "mlle_cr_crypt.h"
@@ -76,6 +79,16 @@ void mlle_debug_log_key(const unsigned char* key) { }
 #endif
 
 
+/* Check that there is no file (a directory is none) at a path, as opposed to one that can't be read. */
+static int mlle_is_missing(const char* path) {
+    struct stat info;
+
+    if (stat(path, &info) != 0) {
+        return errno == ENOENT || errno == ENOTDIR;
+    }
+    return (info.st_mode & S_IFMT) == S_IFDIR;
+}
+
 int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigned char* key) {
     /* On the heap, since this function calls itself for each parent directory. */
     char *path = NULL;
@@ -176,8 +189,13 @@ int mlle_demask_key(mlle_cr_context* context, const char* rel_file_path, unsigne
     }
     snprintf(fullpath, fullpath_size, "%s/%s", context->basedir, path);
     file_buffer = mlle_io_read_file(fullpath, &file_size, &error);
-    if (error) {
-        /* assume that no file exists; read mask from parent */
+    if (error && !mlle_is_missing(fullpath)) {
+        /* without its mask nothing in the directory can be encrypted or decrypted */
+        ret = -1;
+        goto cleanup;
+    }
+    else if (error) {
+        /* no file exists; read mask from parent */
         ret = mlle_demask_key(context, path, key);
         if (ret > 0) {
             /* path names a (missing) package.moc; the file asked for is not one */
-- 
2.43.0


From 4831e6efacc8ab19bb543a0f08db72dc6e03db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:23 +0000
Subject: [PATCH 69/70] fix: encrypt_file takes files with names like
 package.mox for package.moc

---
 src/encrypt_decrypt/encrypt_file.c | 34 ++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/encrypt_decrypt/encrypt_file.c b/src/encrypt_decrypt/encrypt_file.c
index b381110..7a4301a 100644
--- a/src/encrypt_decrypt/encrypt_file.c
+++ b/src/encrypt_decrypt/encrypt_file.c
@@ -31,6 +31,7 @@
 #include <openssl/err.h>
 #include "mlle_cr_encrypt.h"
 #include "mlle_cr_decrypt.h"
+#include "mlle_portability.h"
 
 #ifdef INCLUDE_OPENSSL_APPLINK
 #ifndef __INCLUDE_OPENSSL_APPLINK
@@ -40,6 +41,26 @@
 #endif /* INCLUDE_OPENSSL_APPLINK */
 
 extern FILE* mlle_log;
+
+/*
+* Turn the name of an encrypted file into the name it is encrypted as. Only
+* package.moc may become package.mo, what follows otherwise does not matter.
+*/
+static void clear_name(char* name)
+{
+    size_t len = strlen(name);
+    char* base = name + len;
+    char last = name[len - 1];
+
+    name[len - 1] = '\0';
+    while (base != name && base[-1] != '/' && base[-1] != '\\') {
+        base--;
+    }
+    if (last != 'c' && last != 'C' && strcasecmp(base, "package.mo") == 0) {
+        name[len - 2] = '\0';
+    }
+}
+
 int main(int argc, char** argv)
 {
     FILE* in = NULL;
@@ -92,14 +113,13 @@ int main(int argc, char** argv)
             fprintf(stderr, "Error getting key masks from parent dirs\n");
             exit(2);
         }
-        encrypted[strlen(encrypted) - 1] = '\0';
+        clear_name(encrypted);
     }    
     else {
-        char* fname = encrypted + strlen(encrypted);
-        fname--;
-        if (*fname == 'c') {
-            *fname = '\0';
-        }
+        char* fname = NULL;
+
+        clear_name(encrypted);
+        fname = encrypted + strlen(encrypted);
         c = mlle_cr_create("");
         snprintf(pathdest, 4096, "%s", argv[2]);
         while (fname != encrypted) {
@@ -107,7 +127,7 @@ int main(int argc, char** argv)
             if (ch == '/' || ch == '\\') break;
             fname--;
         }
-        strcpy(encrypted, fname);
+        memmove(encrypted, fname, strlen(fname) + 1);
     }
     
 #ifndef _WIN32
-- 
2.43.0


From 8b3a123826dc71a2b6d5cd76d0baba46ee948115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:12 +0000
Subject: [PATCH 70/70] fix: files with paths close to the system's limit are
 refused

---
 src/decryptors/default/src/mlle_cr_decrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decryptors/default/src/mlle_cr_decrypt.c b/src/decryptors/default/src/mlle_cr_decrypt.c
index eeaebc1..2525bcd 100644
--- a/src/decryptors/default/src/mlle_cr_decrypt.c
+++ b/src/decryptors/default/src/mlle_cr_decrypt.c
@@ -84,7 +84,7 @@ static int mlle_is_missing(const char* path) {
     struct stat info;
 
     if (stat(path, &info) != 0) {
-        return errno == ENOENT || errno == ENOTDIR;
+        return errno == ENOENT || errno == ENOTDIR || errno == ENAMETOOLONG;
     }
     return (info.st_mode & S_IFMT) == S_IFDIR;
 }
-- 
2.43.0

