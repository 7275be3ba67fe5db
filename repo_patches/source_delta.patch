From 3644245340fc37e5069c34618562d2b0ed79fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 01/20] fix: report ciphertext with a wrong nonce size as
 corrupt instead of panicking

---
 pfp/src/crypto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index b28e5eb..3491612 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -127,6 +127,9 @@ pub fn decrypt_data(value: &str, encryption_key: &SecretVec<u8>) -> Result<Secre
         value.split_once('_').ok_or(Error::InvalidCiphertext)?;
     let nonce_data =
         base64::decode(nonce_base64).map_err(|error| Error::InvalidBase64 { error })?;
+    if nonce_data.len() != AES_NONCE_SIZE / 8 {
+        return Err(Error::InvalidCiphertext);
+    }
     let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     let ciphertext =
         base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;
-- 
2.43.0


From 786aae9205cd073b6181cfeec640416c5e130931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 02/20] fix: decoding the recovery code of an empty password no
 longer underflows

---
 pfp/src/recovery_codes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index a518462..d011070 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -220,10 +220,7 @@ pub fn decode(code: &str, primary_password: &SecretString) -> Result<SecretStrin
     let decrypted = crypto::decrypt_data(&encrypted, &encryption_key)?;
     let decrypted_len = decrypted.expose_secret().len();
     let mut end_pos = decrypted_len;
-    while let Some(&byte) = decrypted.expose_secret().get(end_pos - 1) {
-        if byte != 0 {
-            break;
-        }
+    while end_pos > 0 && decrypted.expose_secret()[end_pos - 1] == 0 {
         end_pos -= 1;
     }
     let stripped = if end_pos == decrypted_len {
-- 
2.43.0


From ed7dc0ceb91db56b592f9c7bb4fd934a6f4cbdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 03/20] fix: recovery codes with more than 256 rows no longer
 underflow the row checksum

---
 pfp/src/recovery_codes.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index d011070..a7351ae 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -102,11 +102,12 @@ pub fn generate(
         if pos % BLOCK_SIZE == BLOCK_SIZE - 1 {
             let block_index = pos / BLOCK_SIZE;
             let final_block = block_index == blocks - 1;
+            // Row indexes beyond 255 wrap around
             let virtual_byte = if final_block {
-                255 - block_index
+                255 - block_index as u8
             } else {
-                block_index
-            } as u8;
+                block_index as u8
+            };
             output.push(crypto::pearson_hash(
                 &output[output.len() - BLOCK_SIZE..],
                 virtual_byte,
@@ -248,7 +249,7 @@ fn validate(code: &str) -> Result<Vec<u8>, Error> {
             break;
         }
 
-        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], (255 - i) as u8) {
+        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], 255 - i as u8) {
             seen_last = true;
             extra_row = None;
         } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {
-- 
2.43.0


From e6fde0d84cbdac49e4c998804b0223a2ad2fb5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 04/20] fix: listing passwords no longer fails if an alias
 points to a site without an entry

---
 pfp/src/passwords.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index dd5bc60..9876c9d 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -211,7 +211,11 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
         for site in sites {
-            self.storage.remove_site(site, hmac_secret)?;
+            match self.storage.remove_site(site, hmac_secret) {
+                // Alias targets don't necessarily have a site entry
+                Ok(_) | Err(Error::KeyMissing) => {}
+                Err(error) => return Err(error),
+            }
         }
         self.storage.flush()
     }
-- 
2.43.0


From 17818207a416a9c49dd3fb7762f4eefc56d0a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 05/20] fix: turning an alias target into an alias no longer
 produces alias chains hiding passwords

---
 pfp/src/passwords.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 9876c9d..7d55ae6 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -181,6 +181,19 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
+
+        // Aliases are only resolved once, so sites pointing to the new alias have to follow it
+        let dependents = self
+            .storage
+            .list_sites(key)
+            .filter(|dependent| dependent.alias() == Some(&site_normalized))
+            .map(|dependent| dependent.name().to_string())
+            .filter(|name| name != &alias_resolved)
+            .collect::<Vec<String>>();
+        for dependent in dependents {
+            self.storage
+                .set_alias(&dependent, &alias_resolved, hmac_secret, key)?;
+        }
         self.storage.flush()
     }
 
-- 
2.43.0


From aed72fcedab469e376c22f5922f15c72ded5964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 06/20] fix: list passwords of sites with names still starting
 with www. after normalization

---
 cli/src/processor/list.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 3432f46..7f8a70b 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -57,7 +57,10 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let mut found = false;
         for site in sites {
-            let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
+            // Names of site entries are normalized already. The additional prefix makes certain that
+            // another normalization won't change names which still start with www.
+            let site_name = format!("www.{}", site.name());
+            let mut list = passwords.list(&site_name, name).collect::<Vec<Password>>();
             if list.is_empty() {
                 if name == "*" {
                     empty_sites.push(site.name().to_string());
@@ -96,7 +99,7 @@ pub fn processor<IO: storage_io::StorageIO>(
                         .unwrap()
                         .write_all(
                             passwords
-                                .get(site.name(), &name, &revision)
+                                .get(&site_name, &name, &revision)
                                 .convert_error()?
                                 .expose_secret()
                                 .as_bytes(),
-- 
2.43.0


From 5a763a7c0f3dbb8e13567d414812951ec776f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 07/20] fix: show prints the password or QR code on a line of
 its own

---
 cli/src/processor/show.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/processor/show.rs b/cli/src/processor/show.rs
index 1670500..91979f2 100644
--- a/cli/src/processor/show.rs
+++ b/cli/src/processor/show.rs
@@ -27,7 +27,7 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let password = passwords.get(domain, name, revision).convert_error()?;
         let mut stdout = StreamWriter::stdout().unwrap();
-        stdout.write_all(b"Password retrieved.").unwrap();
+        stdout.write_all(b"Password retrieved.\n").unwrap();
         if *qrcode {
             const BLOCKS: [&str; 4] = [" ", "\u{2580}", "\u{2584}", "\u{2588}"];
 
-- 
2.43.0


From aa4425b5fdb2bc738196a90e87d652f2516312e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 08/20] fix: set-primary asks before overwriting existing files
 that cannot be loaded

---
 cli/src/main.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 7177bf9..b2d7820 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -72,23 +72,19 @@ fn main_inner(args: Args) -> Result<(), String> {
     };
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
-        match FileIO::load(&storage_path) {
-            Ok(io) => {
-                if !assume_yes {
-                    let allow = question::Question::new(
-                        "Changing primary password will remove all existing data. Continue?",
-                    )
-                    .default(question::Answer::NO)
-                    .show_defaults()
-                    .confirm();
-                    if allow == question::Answer::NO {
-                        return Ok(());
-                    }
-                }
-                io
+        // Files that cannot be loaded (e.g. created by a newer version) will be overwritten as well
+        if !assume_yes && storage_path.exists() {
+            let allow = question::Question::new(
+                "Changing primary password will remove all existing data. Continue?",
+            )
+            .default(question::Answer::NO)
+            .show_defaults()
+            .confirm();
+            if allow == question::Answer::NO {
+                return Ok(());
             }
-            Err(_) => FileIO::new(&storage_path),
         }
+        FileIO::load(&storage_path).unwrap_or_else(|_| FileIO::new(&storage_path))
     } else {
         FileIO::load(&storage_path).convert_error()?
     };
-- 
2.43.0


From 2e08a15e08267bcc42f08505258469068d37a7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 09/20] fix: save storage atomically so that crashes and write
 failures cannot destroy it

---
 pfp/src/storage_io/file.rs | 45 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 597c734..19d84af 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -6,8 +6,11 @@
 
 use crate::error::Error;
 use crate::json::{const_serializable, Deserialize, Serialize};
+use rand::Rng;
 use std::collections::HashMap;
 use std::fs;
+use std::io;
+use std::io::Write;
 use std::path;
 
 const_serializable!(ApplicationName: String = "pfp");
@@ -49,6 +52,45 @@ impl FileIO {
     }
 }
 
+/// Replaces the contents of a file. The new contents are written to a temporary file first, so that
+/// a crash or a write failure will not destroy the existing data.
+fn replace_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {
+    let permissions = match fs::OpenOptions::new().write(true).open(path) {
+        Ok(file) => {
+            let metadata = file.metadata()?;
+            if !metadata.is_file() {
+                // Special files should not be replaced
+                return fs::write(path, contents);
+            }
+            Some(metadata.permissions())
+        }
+        Err(error) if error.kind() == io::ErrorKind::NotFound => None,
+        Err(error) => return Err(error),
+    };
+
+    // For symbolic links, the file they point to has to be replaced
+    let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    let temp_path =
+        path.with_file_name(format!(".pfp-{:016x}.tmp", rand::thread_rng().gen::<u64>()));
+
+    let mut file = fs::OpenOptions::new()
+        .write(true)
+        .create_new(true)
+        .open(&temp_path)?;
+    let result = permissions
+        .map_or(Ok(()), |permissions| file.set_permissions(permissions))
+        .and_then(|_| file.write_all(contents))
+        .and_then(|_| file.sync_all());
+    drop(file);
+
+    let result = result.and_then(|_| fs::rename(&temp_path, &path));
+    if result.is_err() {
+        // The original error is more important than a failure to clean up
+        let _ = fs::remove_file(&temp_path);
+    }
+    result
+}
+
 impl super::StorageIO for FileIO {
     fn contains_key(&self, key: &str) -> bool {
         self.data.contains_key(key)
@@ -82,6 +124,7 @@ impl super::StorageIO for FileIO {
         if let Some(parent) = parent {
             fs::create_dir_all(parent).map_err(|error| Error::CreateDirFailure { error })?;
         }
-        fs::write(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
+        replace_file(&self.path, contents.as_bytes())
+            .map_err(|error| Error::FileWriteFailure { error })
     }
 }
-- 
2.43.0


From 505cc2deb3acd16d32e0b86138894e6473b23b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 10/20] fix: report missing or invalid input at password and
 notes prompts instead of panicking or looping

---
 cli/src/processor/add_stored.rs  |  2 +-
 cli/src/processor/notes.rs       |  2 +-
 cli/src/processor/set_primary.rs |  4 ++--
 cli/src/processor/utils.rs       | 27 ++++++++++++++++++---------
 4 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/cli/src/processor/add_stored.rs b/cli/src/processor/add_stored.rs
index ed94cc7..1d4bf12 100644
--- a/cli/src/processor/add_stored.rs
+++ b/cli/src/processor/add_stored.rs
@@ -40,7 +40,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         let password = if *recovery {
             prompt_recovery_code(passwords)?
         } else {
-            prompt_password("Password to be stored: ", args.stdin_passwords)
+            prompt_password("Password to be stored: ", args.stdin_passwords)?
         };
         passwords
             .set_stored(domain, name, revision, password)
diff --git a/cli/src/processor/notes.rs b/cli/src/processor/notes.rs
index 82d6b62..55489fb 100644
--- a/cli/src/processor/notes.rs
+++ b/cli/src/processor/notes.rs
@@ -38,7 +38,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
 
         if *set {
-            let notes = prompt_secret_text("Please enter new notes to be stored:");
+            let notes = prompt_secret_text("Please enter new notes to be stored:")?;
             let removing = notes.expose_secret().is_empty();
             passwords
                 .set_notes(domain, name, revision, notes)
diff --git a/cli/src/processor/set_primary.rs b/cli/src/processor/set_primary.rs
index db84443..f715b2c 100644
--- a/cli/src/processor/set_primary.rs
+++ b/cli/src/processor/set_primary.rs
@@ -15,12 +15,12 @@ pub fn processor<IO: storage_io::StorageIO>(
     storage_path: &std::path::Path,
     passwords: &mut Passwords<IO>,
 ) -> Result<(), String> {
-    let primary_password = prompt_password("New primary password: ", args.stdin_passwords);
+    let primary_password = prompt_password("New primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret().len() < 6 {
         return Err("Primary password length should be at least 6 characters.".to_owned());
     }
 
-    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords);
+    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret() != primary_password2.expose_secret() {
         return Err("Primary passwords don't match.".to_owned());
     }
diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index e8bb9ba..e3316f6 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -68,7 +68,11 @@ impl<T> ConvertError<T> for Result<T, Error> {
     }
 }
 
-pub fn prompt_secret_text(prompt: &str) -> SecretString {
+fn input_error(error: impl std::fmt::Display) -> String {
+    format!("Failed reading input ({}).", error)
+}
+
+pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
     StreamWriter::stdout()
         .unwrap()
         .write_all(prompt.as_bytes())
@@ -77,28 +81,33 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
     let mut byte_buffer = [0];
     let mut buffer = Vec::with_capacity(1024);
     let mut stdin = StreamReader::stdin().unwrap();
+    let mut complete = false;
     while let Ok(1) = stdin.read(&mut byte_buffer) {
         if byte_buffer[0] == b'\n' {
+            complete = true;
             break;
         }
         buffer.push(byte_buffer[0]);
     }
+    if !complete && buffer.is_empty() {
+        return Err(input_error("unexpected end of input"));
+    }
 
     let input = SecretVec::new(buffer);
-    SecretString::new(
+    Ok(SecretString::new(
         std::str::from_utf8(input.expose_secret().as_slice())
-            .unwrap()
+            .map_err(input_error)?
             .to_owned(),
-    )
+    ))
 }
 
-pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> SecretString {
+pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> Result<SecretString, String> {
     let secret = if stdin_passwords {
-        prompt_secret_text(prompt)
+        prompt_secret_text(prompt)?
     } else {
-        SecretString::new(rpassword::prompt_password(prompt).unwrap())
+        SecretString::new(rpassword::prompt_password(prompt).map_err(input_error)?)
     };
-    SecretString::new(secret.expose_secret().trim().to_owned())
+    Ok(SecretString::new(secret.expose_secret().trim().to_owned()))
 }
 
 pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
@@ -110,7 +119,7 @@ pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
     }
 
     while !passwords.unlocked() {
-        let primary_password = prompt_password("Your primary password: ", stdin_passwords);
+        let primary_password = prompt_password("Your primary password: ", stdin_passwords)?;
         if primary_password.expose_secret().len() < 6 {
             eprintln!("Primary password length should be at least 6 characters.");
         } else {
-- 
2.43.0


From 6d3de22fbb7e7a30123bba495643a7b8cea5fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:02 +0000
Subject: [PATCH 11/20] fix: end the shell when reading its input fails
 persistently

---
 cli/src/processor/shell.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/shell.rs b/cli/src/processor/shell.rs
index c71204c..17d659e 100644
--- a/cli/src/processor/shell.rs
+++ b/cli/src/processor/shell.rs
@@ -44,6 +44,7 @@ pub fn processor<IO: storage_io::StorageIO>(
 
     println!("Enter a command or type 'help' for a list of commands. Enter 'help <command>' for detailed information on a command.");
     std::io::stdout().flush().unwrap();
+    let mut result = Ok(());
     loop {
         match editor.readline("pfp> ") {
             Ok(line) => {
@@ -109,6 +110,11 @@ pub fn processor<IO: storage_io::StorageIO>(
             Err(ReadlineError::Eof) => {
                 break;
             }
+            Err(ReadlineError::Io(error)) if error.kind() != std::io::ErrorKind::InvalidData => {
+                // Trying again would produce the same error
+                result = Err(format!("Failed reading input ({}).", error));
+                break;
+            }
             Err(error) => {
                 eprintln!("Error: {:?}", error);
             }
@@ -123,5 +129,5 @@ pub fn processor<IO: storage_io::StorageIO>(
         );
     }
 
-    Ok(())
+    result
 }
-- 
2.43.0


From e9996e440981f7d0b0c3625cfe319cc8741dadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:45 +0000
Subject: [PATCH 12/20] fix: report failing input instead of asking
 confirmations and recovery codes forever

---
 cli/src/main.rs                 | 12 +++++------
 cli/src/processor/add.rs        | 12 +++++------
 cli/src/processor/add_stored.rs | 12 +++++------
 cli/src/processor/utils.rs      | 38 ++++++++++++++++++++++++++-------
 4 files changed, 45 insertions(+), 29 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index b2d7820..15a1be5 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -26,7 +26,7 @@ use args::{Args, Commands};
 use io_streams::StreamWriter;
 use pfp::passwords::Passwords;
 use pfp::storage_io::FileIO;
-use processor::utils::ConvertError;
+use processor::utils::{confirm, ConvertError};
 use std::io::Write;
 
 struct Shutdown {
@@ -74,13 +74,11 @@ fn main_inner(args: Args) -> Result<(), String> {
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
         // Files that cannot be loaded (e.g. created by a newer version) will be overwritten as well
         if !assume_yes && storage_path.exists() {
-            let allow = question::Question::new(
+            let allow = confirm(
                 "Changing primary password will remove all existing data. Continue?",
-            )
-            .default(question::Answer::NO)
-            .show_defaults()
-            .confirm();
-            if allow == question::Answer::NO {
+                false,
+            )?;
+            if !allow {
                 return Ok(());
             }
         }
diff --git a/cli/src/processor/add.rs b/cli/src/processor/add.rs
index bdc9e9a..9899cc0 100644
--- a/cli/src/processor/add.rs
+++ b/cli/src/processor/add.rs
@@ -4,7 +4,7 @@
  * http://mozilla.org/MPL/2.0/.
  */
 
-use super::utils::{ensure_unlocked_passwords, ConvertError};
+use super::utils::{confirm, ensure_unlocked_passwords, ConvertError};
 use crate::args::{Args, Commands};
 use pfp::passwords::Passwords;
 use pfp::storage_io;
@@ -46,13 +46,11 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
 
         if !assume_yes && passwords.has(domain, name, revision).unwrap_or(false) {
-            let allow = question::Question::new(
+            let allow = confirm(
                 "A password with this domain/name/revision combination already exists. Overwrite?",
-            )
-            .default(question::Answer::NO)
-            .show_defaults()
-            .confirm();
-            if allow == question::Answer::NO {
+                false,
+            )?;
+            if !allow {
                 return Ok(());
             }
         }
diff --git a/cli/src/processor/add_stored.rs b/cli/src/processor/add_stored.rs
index 1d4bf12..24133fa 100644
--- a/cli/src/processor/add_stored.rs
+++ b/cli/src/processor/add_stored.rs
@@ -5,7 +5,7 @@
  */
 
 use super::utils::{
-    ensure_unlocked_passwords, prompt_password, prompt_recovery_code, ConvertError,
+    confirm, ensure_unlocked_passwords, prompt_password, prompt_recovery_code, ConvertError,
 };
 use crate::args::{Args, Commands};
 use pfp::passwords::Passwords;
@@ -26,13 +26,11 @@ pub fn processor<IO: storage_io::StorageIO>(
         ensure_unlocked_passwords(passwords, args.stdin_passwords)?;
 
         if !assume_yes && passwords.has(domain, name, revision).unwrap_or(false) {
-            let allow = question::Question::new(
+            let allow = confirm(
                 "A password with this domain/name/revision combination already exists. Overwrite?",
-            )
-            .default(question::Answer::NO)
-            .show_defaults()
-            .confirm();
-            if allow == question::Answer::NO {
+                false,
+            )?;
+            if !allow {
                 return Ok(());
             }
         }
diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index e3316f6..0d8389c 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -110,6 +110,30 @@ pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> Result<SecretStri
     Ok(SecretString::new(secret.expose_secret().trim().to_owned()))
 }
 
+/// Asks a yes/no question, an empty answer meaning the default.
+pub fn confirm(query: &str, default: bool) -> Result<bool, String> {
+    loop {
+        let answer = question::Question::new(query)
+            .default(if default {
+                question::Answer::YES
+            } else {
+                question::Answer::NO
+            })
+            .show_defaults()
+            .ask()
+            .ok_or_else(|| input_error("no answer"))?;
+        match answer {
+            question::Answer::YES => return Ok(true),
+            question::Answer::NO => return Ok(false),
+            question::Answer::RESPONSE(text) => match text.to_lowercase().as_str() {
+                "y" | "yes" => return Ok(true),
+                "n" | "no" => return Ok(false),
+                _ => continue,
+            },
+        }
+    }
+}
+
 pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
     passwords: &mut Passwords<IO>,
     stdin_passwords: bool,
@@ -136,9 +160,11 @@ pub fn prompt_recovery_code<IO: storage_io::StorageIO>(
 ) -> Result<SecretString, String> {
     let mut accepted = String::new();
     loop {
-        if let Some(question::Answer::RESPONSE(line)) =
-            question::Question::new("Next line of your recovery code (empty line to abort):").ask()
-        {
+        let answer =
+            question::Question::new("Next line of your recovery code (empty line to abort):")
+                .ask()
+                .ok_or_else(|| input_error("no answer"))?;
+        if let question::Answer::RESPONSE(line) = answer {
             if line.is_empty() {
                 return Err(String::new());
             }
@@ -152,11 +178,7 @@ pub fn prompt_recovery_code<IO: storage_io::StorageIO>(
                         accepted = formatted.split('\n').collect::<Vec<&str>>()[..line].join("\n");
 
                         let query = format!("The following seems to be a valid recovery code:\n{}\nYou entered some additional data however. Ignore the extra data and decode the recovery code?", &accepted);
-                        let accept = question::Question::new(&query)
-                            .default(question::Answer::YES)
-                            .show_defaults()
-                            .confirm();
-                        if accept == question::Answer::YES {
+                        if confirm(&query, true)? {
                             return passwords.decode_recovery_code(&accepted).convert_error();
                         } else {
                             return Err(String::new());
-- 
2.43.0


From c93b452fcf18031579c2ad18c9a27badd17ec104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 13/20] fix: listing passwords no longer rewrites the storage
 if there is nothing to clean up

---
 pfp/src/passwords.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 7d55ae6..29b379d 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -223,14 +223,21 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         }
 
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
+        let mut removed = false;
         for site in sites {
             match self.storage.remove_site(site, hmac_secret) {
+                Ok(_) => removed = true,
                 // Alias targets don't necessarily have a site entry
-                Ok(_) | Err(Error::KeyMissing) => {}
+                Err(Error::KeyMissing) => {}
                 Err(error) => return Err(error),
             }
         }
-        self.storage.flush()
+
+        if removed {
+            self.storage.flush()
+        } else {
+            Ok(())
+        }
     }
 
     /// Adds a generated password or replaces an existing password.
-- 
2.43.0


From 41f1e70ce19b0e3dea4651c3417c0c653a35d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:50 +0000
Subject: [PATCH 14/20] fix: read entries of generated passwords if their JSON
 data contains escaped key names

---
 pfp/src/json/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfp/src/json/macros.rs b/pfp/src/json/macros.rs
index 5629c21..433c212 100644
--- a/pfp/src/json/macros.rs
+++ b/pfp/src/json/macros.rs
@@ -72,7 +72,7 @@ macro_rules! enumset_serialization {
                     let mut result = Self::Value::empty();
 
                     loop {
-                        match map.next_key::<&str>()? {
+                        match map.next_key::<String>()?.as_deref() {
                             None => break,
                             $(
                                 Some($key) => {
-- 
2.43.0


From dceb2e3a69bf6747405623422dd9d171363826df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:56 +0000
Subject: [PATCH 15/20] fix: wipe abandoned input buffers when long secrets are
 typed in

---
 cli/src/processor/utils.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index 0d8389c..eb8967a 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -87,6 +87,12 @@ pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
             complete = true;
             break;
         }
+        if buffer.len() == buffer.capacity() {
+            // Letting the buffer grow by itself would leave a copy of the secret behind
+            let mut larger = Vec::with_capacity(2 * buffer.capacity());
+            larger.extend_from_slice(&buffer);
+            drop(SecretVec::new(std::mem::replace(&mut buffer, larger)));
+        }
         buffer.push(byte_buffer[0]);
     }
     if !complete && buffer.is_empty() {
-- 
2.43.0


From 4781d51c7166e06b97f0ddeb0f78fb56c2d5814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:04 +0000
Subject: [PATCH 16/20] fix: don't leave copies of secrets behind when
 serializing larger entries

---
 pfp/src/json/mod.rs | 26 ++++++++++++++++++++++++++
 pfp/src/storage.rs  |  2 +-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/pfp/src/json/mod.rs b/pfp/src/json/mod.rs
index f95c477..dd60a08 100644
--- a/pfp/src/json/mod.rs
+++ b/pfp/src/json/mod.rs
@@ -16,3 +16,29 @@ mod macros;
 pub use macros::*;
 
 pub mod secret_serialization;
+
+struct ByteCounter(usize);
+
+impl std::io::Write for ByteCounter {
+    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
+        self.0 += data.len();
+        Ok(data.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        Ok(())
+    }
+}
+
+/// Serializes data containing secrets.
+///
+/// The size of the result is determined first because a growing buffer would leave copies of the
+/// secrets behind.
+pub fn to_secret_vec<T: Serializable>(value: &T) -> Result<secrecy::SecretVec<u8>, Error> {
+    let mut counter = ByteCounter(0);
+    serde_json::to_writer(&mut counter, value)?;
+
+    let mut data = Vec::with_capacity(counter.0);
+    serde_json::to_writer(&mut data, value)?;
+    Ok(secrecy::SecretVec::new(data))
+}
diff --git a/pfp/src/storage.rs b/pfp/src/storage.rs
index d9f5f30..3693832 100644
--- a/pfp/src/storage.rs
+++ b/pfp/src/storage.rs
@@ -64,7 +64,7 @@ impl<IO: storage_io::StorageIO> Storage<IO> {
         T: json::Serializable,
     {
         let serialized =
-            SecretVec::new(json::to_vec(value).map_err(|error| Error::InvalidJson { error })?);
+            json::to_secret_vec(value).map_err(|error| Error::InvalidJson { error })?;
         self.io.set(
             key.to_string(),
             crypto::encrypt_data(&serialized, encryption_key),
-- 
2.43.0


From 368ac7346f029390a1a28844407751049d3a9036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:12 +0000
Subject: [PATCH 17/20] fix: report an error instead of panicking where no home
 directory is known

---
 cli/src/main.rs            | 9 +++++----
 cli/src/processor/shell.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 15a1be5..bdccb8d 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -55,20 +55,21 @@ impl Drop for Shutdown {
     }
 }
 
-fn get_default_storage_path() -> std::path::PathBuf {
+fn get_default_storage_path() -> Result<std::path::PathBuf, String> {
     let app_info = app_dirs2::AppInfo {
         name: "PfP",
         author: "Wladimir Palant",
     };
-    let mut path = app_dirs2::get_app_root(app_dirs2::AppDataType::UserConfig, &app_info).unwrap();
+    let mut path = app_dirs2::get_app_root(app_dirs2::AppDataType::UserConfig, &app_info)
+        .map_err(|error| format!("Failed determining storage location ({}).", error))?;
     path.push("storage.json");
-    path
+    Ok(path)
 }
 
 fn main_inner(args: Args) -> Result<(), String> {
     let storage_path = match &args.storage {
         Some(value) => value.clone(),
-        None => get_default_storage_path(),
+        None => get_default_storage_path()?,
     };
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
diff --git a/cli/src/processor/shell.rs b/cli/src/processor/shell.rs
index 17d659e..eb6e337 100644
--- a/cli/src/processor/shell.rs
+++ b/cli/src/processor/shell.rs
@@ -11,14 +11,15 @@ use pfp::storage_io;
 use rustyline::error::ReadlineError;
 use std::io::Write;
 
-fn get_default_history_path() -> std::path::PathBuf {
+fn get_default_history_path() -> Result<std::path::PathBuf, String> {
     let app_info = app_dirs2::AppInfo {
         name: "PfP",
         author: "Wladimir Palant",
     };
-    let mut path = app_dirs2::get_app_root(app_dirs2::AppDataType::UserConfig, &app_info).unwrap();
+    let mut path = app_dirs2::get_app_root(app_dirs2::AppDataType::UserConfig, &app_info)
+        .map_err(|error| format!("Failed determining history location ({}).", error))?;
     path.push("history.txt");
-    path
+    Ok(path)
 }
 
 pub fn processor<IO: storage_io::StorageIO>(
@@ -30,7 +31,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         Commands::Shell {
             history: Some(value),
         } => value.clone(),
-        _ => get_default_history_path(),
+        _ => get_default_history_path()?,
     };
 
     let mut editor = rustyline::Editor::<()>::new();
-- 
2.43.0


From 018cea1ef2a5629b57a8c8e1e21ae5ca99247a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 18/20] fix: keep lines which are already there for the next
 question when input is redirected

Each question read ahead as much as it could get and dropped the rest, so that only the
first line of a recovery code arrived when the code came from a file or pipe.
---
 cli/src/processor/utils.rs | 46 ++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index eb8967a..4aa3444 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -116,26 +116,29 @@ pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> Result<SecretStri
     Ok(SecretString::new(secret.expose_secret().trim().to_owned()))
 }
 
+/// Asks a question and reads a line as the answer, `None` at the end of input. Unlike with the
+/// `question` crate, lines which are already there are kept for the next question.
+fn ask(query: &str) -> Result<Option<String>, String> {
+    print!("{} ", query);
+    std::io::stdout().flush().unwrap();
+
+    let mut answer = String::new();
+    match std::io::stdin().read_line(&mut answer) {
+        Ok(0) => Ok(None),
+        Ok(_) => Ok(Some(answer.trim().to_owned())),
+        Err(error) => Err(input_error(error)),
+    }
+}
+
 /// Asks a yes/no question, an empty answer meaning the default.
 pub fn confirm(query: &str, default: bool) -> Result<bool, String> {
+    let query = format!("{} ({})", query, if default { "Y/n" } else { "y/N" });
     loop {
-        let answer = question::Question::new(query)
-            .default(if default {
-                question::Answer::YES
-            } else {
-                question::Answer::NO
-            })
-            .show_defaults()
-            .ask()
-            .ok_or_else(|| input_error("no answer"))?;
-        match answer {
-            question::Answer::YES => return Ok(true),
-            question::Answer::NO => return Ok(false),
-            question::Answer::RESPONSE(text) => match text.to_lowercase().as_str() {
-                "y" | "yes" => return Ok(true),
-                "n" | "no" => return Ok(false),
-                _ => continue,
-            },
+        match ask(&query)?.unwrap_or_default().to_lowercase().as_str() {
+            "" => return Ok(default),
+            "y" | "yes" => return Ok(true),
+            "n" | "no" => return Ok(false),
+            _ => continue,
         }
     }
 }
@@ -166,11 +169,8 @@ pub fn prompt_recovery_code<IO: storage_io::StorageIO>(
 ) -> Result<SecretString, String> {
     let mut accepted = String::new();
     loop {
-        let answer =
-            question::Question::new("Next line of your recovery code (empty line to abort):")
-                .ask()
-                .ok_or_else(|| input_error("no answer"))?;
-        if let question::Answer::RESPONSE(line) = answer {
+        let answer = ask("Next line of your recovery code (empty line to abort):")?;
+        if let Some(line) = answer {
             if line.is_empty() {
                 return Err(String::new());
             }
@@ -209,6 +209,8 @@ pub fn prompt_recovery_code<IO: storage_io::StorageIO>(
                     }
                 },
             }
+        } else {
+            return Err(input_error("unexpected end of input"));
         }
     }
 }
-- 
2.43.0


From 4075c5c961c22c8b4cd386704d89cddf1f019d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:25 +0000
Subject: [PATCH 19/20] fix: don't apply changes that failed to be saved with
 the next successful save

---
 pfp/src/storage_io/file.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 19d84af..991206b 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -25,6 +25,8 @@ pub struct FileIO {
     application: ApplicationName,
     format: Format,
     data: HashMap<String, String>,
+    #[serde(skip)]
+    saved_data: HashMap<String, String>,
 }
 
 impl FileIO {
@@ -37,6 +39,7 @@ impl FileIO {
             application: ApplicationName,
             format: Format,
             data: HashMap::new(),
+            saved_data: HashMap::new(),
         }
     }
 
@@ -48,6 +51,7 @@ impl FileIO {
         let mut result = crate::json::from_str::<Self>(&contents)
             .map_err(|error| Error::InvalidJson { error })?;
         result.path = path.to_path_buf();
+        result.saved_data = result.data.clone();
         Ok(result)
     }
 }
@@ -120,11 +124,18 @@ impl super::StorageIO for FileIO {
         let contents =
             crate::json::to_string(self).map_err(|error| Error::InvalidJson { error })?;
 
+        // If saving fails the changes should be dropped rather than saved along with the next ones
+        let data = std::mem::replace(&mut self.data, self.saved_data.clone());
+
         let parent = self.path.parent();
         if let Some(parent) = parent {
             fs::create_dir_all(parent).map_err(|error| Error::CreateDirFailure { error })?;
         }
         replace_file(&self.path, contents.as_bytes())
-            .map_err(|error| Error::FileWriteFailure { error })
+            .map_err(|error| Error::FileWriteFailure { error })?;
+
+        self.saved_data = data.clone();
+        self.data = data;
+        Ok(())
     }
 }
-- 
2.43.0


From db6e5fe0866717d77a6a4651f0959eaf3316d047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 20/20] fix: don't silently ignore the storage option in a
 shell

---
 cli/src/processor/shell.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/src/processor/shell.rs b/cli/src/processor/shell.rs
index eb6e337..e49fd02 100644
--- a/cli/src/processor/shell.rs
+++ b/cli/src/processor/shell.rs
@@ -102,6 +102,10 @@ pub fn processor<IO: storage_io::StorageIO>(
                 }
 
                 let mut new_args = print_errors!(Args::from_arg_matches(&matches));
+                if new_args.storage.is_some() {
+                    eprintln!("You cannot switch to another storage file from a shell.");
+                    continue;
+                }
                 new_args.stdin_passwords = args.stdin_passwords;
 
                 print_errors!(super::process_command(new_args, storage_path, passwords));
-- 
2.43.0

