From 48683ec70ec045a86ecaa4e53c5b96689fe93605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:47 +0000
Subject: [PATCH 01/15] fix: close_tcp must not report success when the peer's
 signal is not Stop

---
 src/transport/tcp/close.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transport/tcp/close.rs b/src/transport/tcp/close.rs
index b6c5367..b191d44 100644
--- a/src/transport/tcp/close.rs
+++ b/src/transport/tcp/close.rs
@@ -22,7 +22,10 @@ use std::net::{Shutdown, TcpStream};
 )]
 pub fn close_tcp(s: End, stream: TcpStream, tcp: bool) -> Result<(), Box<dyn Error>> {
     s.sender.send(Signal::Stop)?;
-    s.receiver.recv()?;
+    match s.receiver.recv()? {
+        Signal::Stop => {}
+        err => panic!("Unexpected label, expected Signal::Stop, got {:?}", err),
+    }
     match tcp {
         true => {
             stream.shutdown(Shutdown::Both).unwrap_or(()); // Stop any operation on stream. Cannot fail as stream may already been stopped.
-- 
2.43.0


From 45ad6584ce60d5e00be47477dc38c946930c0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 02/15] fix: close_mpst! must not succeed on a signal other
 than Stop

Every other close of a MeshedChannels panics when a peer's signal is not
Stop; the function generated by close_mpst! ignored the signal, so a
participant whose peer had sent Signal::Cancel closed successfully.
---
 .../src/macros_multiple/multiple/close/close_mpst.rs         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst.rs b/mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst.rs
index c1f10b6..a0c1cb9 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/close/close_mpst.rs
@@ -55,7 +55,10 @@ impl CloseMpst {
             .map(|i| {
                 let temp_ident = Ident::new(&format!("session{i}"), Span::call_site());
                 quote! {
-                    s.#temp_ident.receiver.recv()?;
+                    match s.#temp_ident.receiver.recv()? {
+                        mpstthree::binary::struct_trait::end::Signal::Stop => {},
+                        err => panic!("Unexpected label, expected Signal::Stop, got {:?}", err),
+                    };
                 }
             })
             .collect();
-- 
2.43.0


From 8b5e0ed36257d183e3dcb605682ba790c1b1e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 03/15] fix: broadcast_cancel! must not wait forever for a
 participant that is gone

A participant that fails without sending Cancel drops its session with the
broadcaster.  The broadcaster ignored the disconnection and kept polling, so
the protocol never terminated.  Treat it like a cancellation.
---
 .../src/macros_multiple/multiple/broadcast_cancel.rs         | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
index e051f14..f755ad0 100644
--- a/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
+++ b/mpst_seq_proc/src/macros_multiple/multiple/broadcast_cancel.rs
@@ -82,6 +82,11 @@ impl BroadcastCancel {
                                 Ok(mpstthree::binary::struct_trait::end::Signal::Offer(channel)) => {
                                     s.#field_session = channel;
                                 }
+                                Err(error) if error.is_disconnected() && #bool_session => {
+                                    #send_sessions
+                                    mpstthree::binary::cancel::cancel(s);
+                                    panic!("Error");
+                                }
                                 _ => {}
                             };
                         )*
-- 
2.43.0


From 3648633edeaa2b36f2f41a07811f1d782ced8240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:25 +0000
Subject: [PATCH 04/15] fix: a timed send or receive without bounds must reset
 its declared clock

---
 src/binary_atmp/recv.rs | 10 +++++++++-
 src/binary_atmp/send.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/binary_atmp/recv.rs b/src/binary_atmp/recv.rs
index df760ae..1cba656 100644
--- a/src/binary_atmp/recv.rs
+++ b/src/binary_atmp/recv.rs
@@ -130,7 +130,15 @@ where
         } else {
             if !s.include_start && !s.include_end {
                 match s.channel.recv() {
-                    Ok((v, c)) => Ok((v, c)),
+                    Ok((v, c)) => {
+                        // if the clock must be reset
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok((v, c))
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
diff --git a/src/binary_atmp/send.rs b/src/binary_atmp/send.rs
index 083031b..67223fe 100644
--- a/src/binary_atmp/send.rs
+++ b/src/binary_atmp/send.rs
@@ -137,7 +137,15 @@ where
             if !s.include_start && !s.include_end {
                 let (here, there) = S::new();
                 match s.channel.send((x, there)) {
-                    Ok(()) => Ok(here),
+                    Ok(()) => {
+                        // if the clock must be reset
+                        if s.reset != ' ' {
+                            let clock_to_reset = all_clocks.get_mut(&s.reset).unwrap();
+
+                            *clock_to_reset = Instant::now();
+                        }
+                        Ok(here)
+                    }
                     Err(e) => {
                         cancel(s);
                         panic!("{}", e.to_string())
-- 
2.43.0


From a9ff6b820987d7c5745da31029e36c36b17b6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:35 +0000
Subject: [PATCH 05/15] fix: a timed binary choice must not reset the clock
 between its sends

---
 .../src/common_functions/expand/choose.rs     | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mpst_seq_proc/src/common_functions/expand/choose.rs b/mpst_seq_proc/src/common_functions/expand/choose.rs
index a1bc161..235dd4c 100644
--- a/mpst_seq_proc/src/common_functions/expand/choose.rs
+++ b/mpst_seq_proc/src/common_functions/expand/choose.rs
@@ -1574,7 +1574,7 @@ pub(crate) fn choose_atmp(
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::send_without_reset(
                     either::Either::Left(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1593,7 +1593,7 @@ pub(crate) fn choose_atmp(
             let session_sender = Ident::new(&format!("session{j}"), Span::call_site());
 
             quote! {
-                let #new_session_sender = mpstthree::binary_atmp::send::send(
+                let #new_session_sender = mpstthree::binary_atmp::send::send_without_reset(
                     either::Either::Right(#new_choice_sender),
                     all_clocks,
                     self.#session_sender
@@ -1642,6 +1642,17 @@ pub(crate) fn choose_atmp(
 
     let new_name_sender = Ident::new(&format!("name_{number_roles}"), Span::call_site());
 
+    // The sends share the same clocks, so the reset happens once they are all done
+    let reset_clock = quote! {
+        if RESET != ' ' {
+            if let Some(clock_to_reset) = all_clocks.get_mut(&RESET) {
+                *clock_to_reset = std::time::Instant::now();
+            } else {
+                panic!("The clock {} is not available in {:?}", RESET, all_clocks);
+            }
+        }
+    };
+
     quote! {
         impl<
             #(
@@ -1704,6 +1715,8 @@ pub(crate) fn choose_atmp(
                     #new_sessions_sender_left
                 )*
 
+                #reset_clock
+
                 let s = #meshedchannels_name {
                     #(
                         #old_meshedchannels_sender
@@ -1762,6 +1775,8 @@ pub(crate) fn choose_atmp(
                     #new_sessions_sender_right
                 )*
 
+                #reset_clock
+
                 let s = #meshedchannels_name {
                     #(
                         #old_meshedchannels_sender
-- 
2.43.0


From 081b6b815a9dd507d750dca6df43c7607587fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:29 +0000
Subject: [PATCH 06/15] fix: the checker must report k = 50 when the tool
 accepts it

---
 src/checking/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checking/mod.rs b/src/checking/mod.rs
index 5d051b4..0e4b99c 100644
--- a/src/checking/mod.rs
+++ b/src/checking/mod.rs
@@ -388,7 +388,7 @@ pub fn checker(
             kmc_result = kmc_cli(name_file, kmc_number)?;
         }
 
-        if kmc_number == 50 {
+        if !kmc_result.0 {
             println!(
                 "The protocol does not seem correct. Here is the last output: {:?}",
                 kmc_result.1
-- 
2.43.0


From ef286c86a91a35eaef99f6b9c402b5ae517bb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:45 +0000
Subject: [PATCH 07/15] fix: time bounds of a global protocol must be compared
 as numbers

---
 .../auxiliary_objects/line_is_message.rs      |  4 ++-
 .../previous_message_wrt_clocks.rs            | 28 ++++++++++---------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
index ec803c6..1dfdceb 100644
--- a/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
+++ b/src/top_down_nuscr/auxiliary_objects/line_is_message.rs
@@ -53,7 +53,9 @@ pub(crate) fn update_messages(
     }
 
     // Check if bounds are sound
-    if left_bound > right_bound && (left_bracket == "]" || right_bracket == "[") {
+    if left_bound.parse::<i128>()? > right_bound.parse::<i128>()?
+        && (left_bracket == "]" || right_bracket == "[")
+    {
         return Err(format!("The time bounds are not sound in line: {}", line_number).into());
     }
 
diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index a9ab7d0..1f21c89 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -5,18 +5,19 @@ pub(crate) fn fn_previous_message_wrt_clocks(
     previous_message_wrt_clocks: &mut HashMap<String, HashMap<String, (String, String)>>,
     elts: &MessageParameters,
 ) -> Result<(), Box<dyn std::error::Error>> {
-    if elts.left_bound > elts.right_bound {
+    if elts.left_bound.parse::<i128>()? > elts.right_bound.parse::<i128>()? {
         return Err("Wrong time interval: a left bound is after its related right bound.".into());
     }
 
     if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(&elts.sender) {
         if let Some(previous_time_bound) = role_time_bounds.remove(&elts.clock) {
-            if ((elts.left_bound.parse::<i32>().unwrap() + (elts.left_bracket == "[") as i32)
-                < (previous_time_bound.0.parse::<i32>().unwrap()
-                    + previous_time_bound.1.parse::<bool>().unwrap() as i32))
-                && ((elts.right_bound.parse::<i32>().unwrap() + (elts.right_bracket == "]") as i32)
-                    < (previous_time_bound.0.parse::<i32>().unwrap()
-                        + previous_time_bound.1.parse::<bool>().unwrap() as i32))
+            if ((elts.left_bound.parse::<i128>().unwrap() + (elts.left_bracket == "[") as i128)
+                < (previous_time_bound.0.parse::<i128>().unwrap()
+                    + previous_time_bound.1.parse::<bool>().unwrap() as i128))
+                && ((elts.right_bound.parse::<i128>().unwrap()
+                    + (elts.right_bracket == "]") as i128)
+                    < (previous_time_bound.0.parse::<i128>().unwrap()
+                        + previous_time_bound.1.parse::<bool>().unwrap() as i128))
             {
                 return Err("Two of the consecutive time bounds are not feasible.".into());
             } else if elts.reset != elts.clock {
@@ -53,12 +54,13 @@ pub(crate) fn fn_previous_message_wrt_clocks(
 
     if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(&elts.receiver) {
         if let Some(previous_time_bound) = role_time_bounds.remove(&elts.clock) {
-            if ((elts.left_bound.parse::<i32>().unwrap() + (elts.left_bracket == "[") as i32)
-                < (previous_time_bound.0.parse::<i32>().unwrap()
-                    + previous_time_bound.1.parse::<bool>().unwrap() as i32))
-                && ((elts.right_bound.parse::<i32>().unwrap() + (elts.right_bracket == "]") as i32)
-                    < (previous_time_bound.0.parse::<i32>().unwrap()
-                        + previous_time_bound.1.parse::<bool>().unwrap() as i32))
+            if ((elts.left_bound.parse::<i128>().unwrap() + (elts.left_bracket == "[") as i128)
+                < (previous_time_bound.0.parse::<i128>().unwrap()
+                    + previous_time_bound.1.parse::<bool>().unwrap() as i128))
+                && ((elts.right_bound.parse::<i128>().unwrap()
+                    + (elts.right_bracket == "]") as i128)
+                    < (previous_time_bound.0.parse::<i128>().unwrap()
+                        + previous_time_bound.1.parse::<bool>().unwrap() as i128))
             {
                 return Err("Two of the consecutive time bounds are not feasible.".into());
             } else if elts.reset != elts.clock {
-- 
2.43.0


From bb25847ee7adcc7d7f86bc642ed2e8e0f585e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:45 +0000
Subject: [PATCH 08/15] fix: a reset clock must place no demand on its next
 interval

---
 .../previous_message_wrt_clocks.rs                         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
index 1f21c89..0a0d6ee 100644
--- a/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
+++ b/src/top_down_nuscr/auxiliary_objects/messages_and_stacks_update/previous_message_wrt_clocks.rs
@@ -95,5 +95,12 @@ pub(crate) fn fn_previous_message_wrt_clocks(
         previous_message_wrt_clocks.insert(elts.receiver.to_string(), temp_time_bound);
     }
 
+    // A clock that was reset places no demand on its next interval
+    for role in [&elts.sender, &elts.receiver] {
+        if let Some(role_time_bounds) = previous_message_wrt_clocks.get_mut(role) {
+            role_time_bounds.remove(&elts.reset);
+        }
+    }
+
     Ok(())
 }
-- 
2.43.0


From 8f4e16b5c4959320951b9f3ba2548c36b4019af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 09/15] fix: brackets after the end of a global protocol must
 be balanced

---
 src/top_down_nuscr/generator.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/top_down_nuscr/generator.rs b/src/top_down_nuscr/generator.rs
index caf31ec..cad7d99 100644
--- a/src/top_down_nuscr/generator.rs
+++ b/src/top_down_nuscr/generator.rs
@@ -92,6 +92,16 @@ pub fn generator(
     }
 
     // Generate everything
+    // The lines after the end of the protocol may also contain brackets
+    for (_, line) in lines_iter {
+        global_elements.opening_brackets += line.matches('{').count();
+        global_elements.closing_brackets += line.matches('}').count();
+    }
+
+    if global_elements.opening_brackets != global_elements.closing_brackets {
+        return Err("There are too many brackets after the end of the protocol.".into());
+    }
+
     imports::generate_imports(&mut global_elements, &main_tree)?;
     structs::generate_structs(&mut global_elements, &main_tree, &mut vec![], true)?;
     sessions::generate_sessions(&mut global_elements, &main_tree)?;
-- 
2.43.0


From 017d3ee6f81ea76d9684bba5238ab638579f725e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:18 +0000
Subject: [PATCH 10/15] fix: close_mpst_interleaved! must not succeed on a
 signal other than Stop

---
 mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs b/mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs
index 8544ac9..ace3942 100644
--- a/mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs
+++ b/mpst_seq_proc/src/interleaved/close_mpst_interleaved.rs
@@ -111,7 +111,10 @@ impl CloseMpstInterleaved {
                     .map(|j| {
                         let temp_session = Ident::new(&format!("session{j}"), Span::call_site());
                         quote! {
-                            #temp_ident.#temp_session.receiver.recv()?;
+                            match #temp_ident.#temp_session.receiver.recv()? {
+                                mpstthree::binary::struct_trait::end::Signal::Stop => {},
+                                err => panic!("Unexpected label, expected Signal::Stop, got {:?}", err),
+                            };
                         }
                     })
                     .collect();
-- 
2.43.0


From 707918b591431a94812129aa7905434134c02c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 11/15] fix: a message of a participant whose name ends in rec
 is not the start of a loop

---
 src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index 9c0cd1f..e2977de 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -28,7 +28,7 @@ pub(crate) static MESSAGE_WITH_PAYLOAD_AND_RESET: Lazy<Regex> = Lazy::new(|| {
     Regex::new(r"(?P<message>\w+)\((?P<payload>\w+)\)( +)from( +)(?P<sender>\w+)( +)to( +)(?P<receiver>\w+)( +)within( +)(?P<left_bracket>(\[|\]))( *)(?P<left_bound>\d+)( *);( *)(?P<right_bound>\d+)( *)(?P<right_bracket>(\[|\]))( +)using( +)(?P<clock>\w+)( +)and( +)resetting( +)\((?P<reset>\w+)\)( *);").unwrap()
 });
 
-pub(crate) static REC: Lazy<Regex> = Lazy::new(|| Regex::new(r"rec( +)(?P<loop>\w+)").unwrap());
+pub(crate) static REC: Lazy<Regex> = Lazy::new(|| Regex::new(r"^\s*rec( +)(?P<loop>\w+)").unwrap());
 
 pub(crate) static CONTINUE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"continue( +)(?P<loop>\w+)( *);").unwrap());
-- 
2.43.0


From 133491442d5b32dee08813f3e94ec6b969be0c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:59 +0000
Subject: [PATCH 12/15] fix: a participant is read even if several blanks
 separate it from the keyword role

---
 src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
index e2977de..7733e4a 100644
--- a/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
+++ b/src/top_down_nuscr/auxiliary_objects/regex_nuscr.rs
@@ -5,7 +5,7 @@ pub(crate) static GLOBAL_PROTOCOL: Lazy<Regex> = Lazy::new(|| {
         .unwrap()
 });
 
-pub(crate) static ROLE: Lazy<Regex> = Lazy::new(|| Regex::new(r"role (?P<name>\w+)").unwrap());
+pub(crate) static ROLE: Lazy<Regex> = Lazy::new(|| Regex::new(r"role +(?P<name>\w+)").unwrap());
 
 pub(crate) static CHOICE: Lazy<Regex> =
     Lazy::new(|| Regex::new(r"choice( +)at( +)(?P<choice>\w+)( *)\{?").unwrap());
-- 
2.43.0


From d76864c660738e6dffdf3c2de24bc9f037ce1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:00 +0000
Subject: [PATCH 13/15] fix: the checker must read the whole name of a
 participant, and only such names

---
 src/checking/aux_checker.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 005431e..1b9f8f4 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -52,15 +52,12 @@ pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
     }
 
     // The name regex expression
-    let name_regex = Regex::new(r"Name([[:alpha:]]+)")?;
+    let name_regex = Regex::new(r"\bName(\w+)")?;
 
-    let mut name_to_role = double_colon_less.clone();
-
-    // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in name_regex.captures_iter(&double_colon_less) {
-        name_to_role =
-            name_to_role.replace(&caps[0], &format!("Role{}<RoleEnd>", &caps[caps.len() - 1]));
-    }
+    // Replace with regex expression -> NameX by RoleX<RoleEnd>
+    let mut name_to_role = name_regex
+        .replace_all(&double_colon_less, "Role${1}<RoleEnd>")
+        .into_owned();
 
     // Remove whitespaces
     name_to_role.retain(|c| !c.is_whitespace());
-- 
2.43.0


From 238a0f92075e4a713b2d4990b21a50eae4869099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:00 +0000
Subject: [PATCH 14/15] fix: the checker must not split the tuples and arrays
 sent as payloads

---
 src/checking/aux_checker.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 1b9f8f4..475a3ca 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -44,7 +44,7 @@ pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
     let mut double_colon_less = session.replace('&', "");
 
     // The main regex expression
-    let double_colon_regex = Regex::new(r"([^<,>\s]+)::([^<,>\s]+)")?;
+    let double_colon_regex = Regex::new(r"([^<,>()\[\];\s]+)::([^<,>()\[\];\s]+)")?;
 
     // Replace with regex expression -> term1::term2::term3 by term3
     for caps in double_colon_regex.captures_iter(session) {
@@ -160,10 +160,10 @@ pub(crate) fn get_blocks(full_block: &str) -> Result<VecOfStr, Box<dyn Error>> {
         } else if i == '>' && index == 0 {
             result.push(temp.to_string());
             temp = "".to_string();
-        } else if i == '<' && index >= 0 {
+        } else if matches!(i, '<' | '(' | '[') && index >= 0 {
             temp = format!("{temp}{i}");
             index += 1;
-        } else if i == '>' && index >= 0 {
+        } else if matches!(i, '>' | ')' | ']') && index >= 0 {
             temp = format!("{temp}{i}");
             index -= 1;
         } else if i == ',' && index == 0 {
-- 
2.43.0


From 5bb3e588abf273c8bebde1c443301df02e9b47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:32 +0000
Subject: [PATCH 15/15] fix: the checker must shorten every path as a whole

---
 src/checking/aux_checker.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/checking/aux_checker.rs b/src/checking/aux_checker.rs
index 475a3ca..ed4926d 100644
--- a/src/checking/aux_checker.rs
+++ b/src/checking/aux_checker.rs
@@ -41,15 +41,13 @@ type VecOfTuple = Vec<(String, usize)>;
 /// /!\ Mixing former and new naming: moving from new to former
 #[doc(hidden)]
 pub(crate) fn clean_session(session: &str) -> Result<VecOfStr, Box<dyn Error>> {
-    let mut double_colon_less = session.replace('&', "");
+    let ampersand_less = session.replace('&', "");
 
     // The main regex expression
     let double_colon_regex = Regex::new(r"([^<,>()\[\];\s]+)::([^<,>()\[\];\s]+)")?;
 
     // Replace with regex expression -> term1::term2::term3 by term3
-    for caps in double_colon_regex.captures_iter(session) {
-        double_colon_less = double_colon_less.replace(&caps[0], &caps[caps.len() - 1]);
-    }
+    let double_colon_less = double_colon_regex.replace_all(&ampersand_less, "$2");
 
     // The name regex expression
     let name_regex = Regex::new(r"\bName(\w+)")?;
-- 
2.43.0

