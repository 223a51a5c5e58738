From ba9daba82e3a2a7be43a984279c29ab18f9c8051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 01/23] verif hook: library target re-exporting the engine
 under cfg(fixrs_verif)

---
 src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)
 create mode 100644 src/lib.rs

diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..45d125f
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,18 @@
+//! Verification hook: with `--cfg fixrs_verif` this library re-exports the engine's modules
+//! to external test harnesses. Without that flag it is an empty library.
+#![cfg(fixrs_verif)]
+#![allow(dead_code, unused_variables, deprecated, unexpected_cfgs)]
+
+include!(concat!(env!("OUT_DIR"), "/mod.rs"));
+
+pub mod application;
+pub mod data_dictionary;
+pub mod io;
+pub mod message;
+pub mod network;
+pub mod quickfix_errors;
+pub mod session;
+
+pub mod verif_hooks {
+    pub use crate::io::acceptor::IoAcceptor;
+}
-- 
2.43.0


From 1a19c164aed4a23e678eb0a713d659358daa4b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:35 +0000
Subject: [PATCH 02/23] fix: reject texts of fewer than three fields instead of
 panicking

parse_header indexed the first three fields without checking that they exist.
---
 src/message.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 3c4059a..d9bbb47 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -483,10 +483,8 @@ fn parse_group(
 fn parse_header(
     v: &mut VecDeque<StringField>, header: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
-    if v[0].tag() != BeginString::field()
-        || v[1].tag() != BodyLength::field()
-        || v[2].tag() != MsgType::field()
-    {
+    let first_tags = [BeginString::field(), BodyLength::field(), MsgType::field()];
+    if v.len() < 3 || (0..3).any(|i| v[i].tag() != first_tags[i]) {
         return Err(SessionRejectError::tag_specified_out_of_order());
     }
     while let Some(fld) = v.pop_front() {
-- 
2.43.0


From 4fce8e4090e20b9c51a2489a25fcbaa2a8c5cc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:09 +0000
Subject: [PATCH 03/23] fix: do not allocate instances for a group count the
 message cannot hold

A declared count of up to 2^32-1 allocated that many field maps before any
instance was read.
---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index d9bbb47..9b897a3 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -426,6 +426,10 @@ fn parse_group(
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
     };
+    if declared_count as usize > v.len() {
+        // every instance has at least one field, do not create more instances than fields left
+        return Err(SessionRejectError::incorrect_num_in_grp_count());
+    }
     let delimiter = rg.delimiter();
     let group = fmap.set_group(fld.tag(), declared_count, delimiter);
     let mut actual_count: i32 = -1;
-- 
2.43.0


From a8664e94b8ebbf0712de30c91d9298a87445d53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 04/23] fix: reject a tag that appears twice in a section or
 group instance

The later value silently replaced the earlier one, and a repeated group
mixed the instances of both.
---
 src/message.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 9b897a3..258797e 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -412,10 +412,21 @@ fn from_vec(mut v: VecDeque<StringField>, dd: &DataDictionary) -> SessResult<Mes
     Ok(message)
 }
 
+fn set_unique_field(fmap: &mut FieldMap, field: StringField) -> SessResult<()> {
+    if fmap.fields.contains_key(&field.tag()) {
+        return Err(SessionRejectError::tag_appear_more_than_once());
+    }
+    fmap.set_field(field);
+    Ok(())
+}
+
 fn parse_group(
     v: &mut VecDeque<StringField>, msg_type: &str, fld: &StringField, fmap: &mut FieldMap,
     dd: &DataDictionary,
 ) -> SessResult<()> {
+    if fmap.fields.contains_key(&fld.tag()) {
+        return Err(SessionRejectError::tag_appear_more_than_once());
+    }
     let rg = dd
         .get_msg_group(msg_type, fld.tag())
         .ok_or_else(SessionRejectError::tag_not_defined_for_msg)?;
@@ -462,13 +473,16 @@ fn parse_group(
                 // means first field not found i.e. delimiter
                 return Err(SessionRejectError::required_tag_missing_err());
             }
+            let group_instance = &mut group[actual_count as usize];
+            if group_instance.fields.contains_key(&next_field.tag()) {
+                return Err(SessionRejectError::tag_appear_more_than_once());
+            }
             // verify the order of fields
             let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
             if offset < previous_offset {
                 // means the field is out of order
                 return Err(SessionRejectError::repeating_grp_out_of_order());
             }
-            let group_instance = &mut group[actual_count as usize];
             group_instance.set_field(next_field);
             previous_offset = offset;
         } else {
@@ -499,7 +513,7 @@ fn parse_header(
         } else if dd.is_msg_group(HEADER_ID, fld.tag()) {
             parse_group(v, HEADER_ID, &fld, header, dd)?;
         } else {
-            header.set_field(fld);
+            set_unique_field(header, fld)?;
         }
     }
     Ok(())
@@ -523,7 +537,7 @@ fn parse_body(
         if dd.is_msg_group(msg_type.as_str(), fld.tag()) {
             parse_group(v, &msg_type, &fld, &mut msg.body, dd)?;
         } else {
-            msg.set_field(fld);
+            set_unique_field(&mut msg.body, fld)?;
         }
     }
     Ok(())
@@ -536,7 +550,7 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
-        trailer.set_field(fld);
+        set_unique_field(trailer, fld)?;
     }
     Ok(())
 }
-- 
2.43.0


From ed8e4172cc5dc238692153325705ef1ea7b71a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 05/23] fix: reject tags with a plus sign or leading zeros as
 invalid

+35=D and 035=D were taken for tag 35 and written back as 35=D.
---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 258797e..5168fad 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -338,7 +338,8 @@ impl Message {
             let (tag, value) = match field.split_once('=') {
                 Some((t, v)) => {
                     let parse_result = t.parse::<u32>();
-                    if parse_result.is_err() {
+                    // parse() alone lets a '+' sign and leading zeros pass
+                    if parse_result.is_err() || t.starts_with(['+', '0']) {
                         return Err(SessionRejectError::invalid_tag_err());
                     }
                     if v.is_empty() {
-- 
2.43.0


From c361bca2ca60143664002ac0845cb3a3da66dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 06/23] fix: write the delimiter first in group instances built
 through the API

Instances made by set_group had no field order, so their fields came out in
hash order and the text could not be parsed.
---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 5168fad..f76d4ef 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -118,7 +118,8 @@ impl FieldMap {
             self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
         // create group instances and insert into group
         for i in 0..value {
-            group.add_group(FieldMap::new());
+            // an instance starts with the delimiter
+            group.add_group(FieldMap::with_field_order(&[rep_grp_delimiter]));
         }
         group
     }
-- 
2.43.0


From d4141d6518f3f5f352624925efa8d7b79867f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 07/23] fix: setting a group again replaces its instances

The new instances were added to the old ones, so that the count field and
the number of instances disagreed.
---
 src/message.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index f76d4ef..32f7abf 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -114,8 +114,9 @@ impl FieldMap {
     pub fn set_group(&mut self, tag: Tag, value: u32, rep_grp_delimiter: Tag) -> &mut Group {
         let grp_field = StringField::new(tag, value.to_string().as_str());
         self.set_field(grp_field);
-        let group =
-            self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
+        // instances of a group set before are replaced
+        self.group.insert(tag, Group::new(rep_grp_delimiter, tag, value));
+        let group = self.group.get_mut(&tag).unwrap();
         // create group instances and insert into group
         for i in 0..value {
             // an instance starts with the delimiter
-- 
2.43.0


From ebd9ae632a66f3405bf9580b98f5106d66e384be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 08/23] fix: write CheckSum as the last field of the trailer

Trailer fields came out in hash order, so CheckSum could precede Signature.
---
 src/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 32f7abf..268b286 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -178,6 +178,8 @@ impl<'a> FieldMapIter<'a> {
                     .map_or(usize::MAX, |pos| pos)
             })
         }
+        // whatever the order of the others, CheckSum ends the message
+        temp_vec.sort_by_key(|field| field.tag() == CheckSum::field());
         for str_field in temp_vec {
             let tag = str_field.tag();
             self.vec_str_field.push(str_field);
-- 
2.43.0


From 41481237877bb166cfcd979e6e6e630c35b150a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:07 +0000
Subject: [PATCH 09/23] fix: do not panic reading the session id of a message
 cut inside a field

extract_field_value unwrapped the position of a SOH that need not be there.
---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 268b286..c7313f8 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -402,7 +402,8 @@ fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
     if let Some(indx) = s.find(pat.as_str()) {
         let field_start_pos = indx + pat_prefix.len();
         // ignore the first SOH prefix, if any, and start from tag
-        let end_pos = s[field_start_pos..].find(SOH).unwrap();
+        // the last field of a truncated message has no terminator
+        let end_pos = s[field_start_pos..].find(SOH).unwrap_or(s.len() - field_start_pos);
         let start_pos = s[field_start_pos..].find('=').unwrap();
         return &s[field_start_pos + start_pos + 1..field_start_pos + end_pos];
     }
-- 
2.43.0


From fa8316570bb23b524d3b14709753b452c562bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 10/23] fix: report an undefined component as an error instead
 of panicking

---
 src/data_dictionary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 7aa75a3..1ac9e6d 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -289,7 +289,7 @@ impl DataDictionary {
                     // required attrib for processing componend does not depend on outer node
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msg: {}, comp: {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     group_dd.add_xml_component(
                         msg_type,
                         comp_node,
@@ -353,7 +353,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     // "required" attribute of each comp inside comp is treated independently
                     // it does no depend on outer component.
                     self.add_xml_component(msg_type, comp_node, is_comp_required, components, doc)?
@@ -417,7 +417,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     self.add_xml_component(msg_type, comp_node, comp_required, components, doc)?;
                 }
                 "group" => {
-- 
2.43.0


From 66073d9985891634c6b8456c3532467c6f88e65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 11/23] fix: refuse dictionaries whose components contain
 themselves

---
 src/data_dictionary.rs | 31 +++++++++++++++++++++++++++++++
 src/quickfix_errors.rs |  2 ++
 2 files changed, 33 insertions(+)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 1ac9e6d..b170036 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -450,6 +450,7 @@ impl FromStr for DataDictionary {
 
         let component_node = lookup_node("components", &doc)?;
         let component_map: NodeMap = get_component_nodes_by_name(component_node)?;
+        check_component_recursion(&component_map)?;
 
         let header_node = lookup_node(HEADER_ID, &doc)?;
         dd.add_xml_message(&HEADER_ID, &header_node, &component_map, &doc)?;
@@ -545,6 +546,36 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
     Ok(cmap)
 }
 
+fn check_component_recursion(components: &NodeMap) -> DResult<()> {
+    // a component which contains itself, directly or through other components, has no expansion.
+    // false - being visited, true - visited completely
+    let mut visited: HashMap<&str, bool> = HashMap::new();
+    for name in components.keys() {
+        let mut pending = vec![(name.as_str(), false)];
+        while let Some((comp_name, children_done)) = pending.pop() {
+            if children_done {
+                visited.insert(comp_name, true);
+                continue;
+            }
+            match visited.get(comp_name) {
+                Some(true) => continue,
+                Some(false) => return Err(XmlError::RecursiveComponent(comp_name.to_string())),
+                None => visited.insert(comp_name, false),
+            };
+            pending.push((comp_name, true));
+            if let Some(comp_node) = components.get(comp_name) {
+                for node in comp_node.descendants().filter(|n| n.has_tag_name("component")) {
+                    match node.attribute("name") {
+                        Some(child) if node != *comp_node => pending.push((child, false)),
+                        _ => (),
+                    }
+                }
+            }
+        }
+    }
+    Ok(())
+}
+
 fn lookup_field_num_with_name(field_name: &str, doc: &Document) -> DResult<u32> {
     let fields = lookup_node("fields", doc)?;
     for node in fields.children().filter(|n| n.has_attribute("number") && n.has_attribute("name")) {
diff --git a/src/quickfix_errors.rs b/src/quickfix_errors.rs
index 7605c29..b814bb4 100644
--- a/src/quickfix_errors.rs
+++ b/src/quickfix_errors.rs
@@ -190,6 +190,8 @@ pub enum XmlError {
     AttributeNotFound(String),
     #[error("Unknown xml tag {}", .0)]
     UnknownXmlTag(String),
+    #[error("Component {} contains itself", .0)]
+    RecursiveComponent(String),
 }
 
 pub enum InvalidMessage {
-- 
2.43.0


From e081a5f4d9640b830f25ad63374f83074aee739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:11 +0000
Subject: [PATCH 12/23] fix: refuse dictionaries cut off before their root
 element is closed

---
 src/data_dictionary.rs | 11 +++++++++++
 src/quickfix_errors.rs |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index b170036..0f93246 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -442,6 +442,7 @@ impl FromStr for DataDictionary {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let mut dd = DataDictionary::default();
         let doc = Document::parse(s)?;
+        check_root_closed(&doc)?;
         let begin_string = get_begin_str_from_doc(doc.root_element())?;
         dd.begin_string = begin_string;
 
@@ -546,6 +547,16 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
     Ok(cmap)
 }
 
+fn check_root_closed(document: &Document) -> DResult<()> {
+    // the xml parser accepts a text that ends before the root element is closed. The range of such
+    // an element is only its start tag
+    let root = document.root_element();
+    if root.children().any(|node| node.range().start >= root.range().end) {
+        return Err(XmlError::DocumentNotClosed);
+    }
+    Ok(())
+}
+
 fn check_component_recursion(components: &NodeMap) -> DResult<()> {
     // a component which contains itself, directly or through other components, has no expansion.
     // false - being visited, true - visited completely
diff --git a/src/quickfix_errors.rs b/src/quickfix_errors.rs
index b814bb4..bc10247 100644
--- a/src/quickfix_errors.rs
+++ b/src/quickfix_errors.rs
@@ -175,6 +175,8 @@ enum SessionRejectReason {
 pub enum XmlError {
     #[error("Could not parse the document")]
     DocumentNotParsed(#[from] roxmltree::Error),
+    #[error("Document ends before its root element is closed")]
+    DocumentNotClosed,
     #[error("Node {} not found", .0)]
     XmlNodeNotFound(String),
     #[error("Could not parse field {field} into u32: {:?}", .source)]
-- 
2.43.0


From 9c9ba49a53dab888f4c83d7cef8e138cc9b89858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:25 +0000
Subject: [PATCH 13/23] fix: session time for overnight and week-spanning
 sessions and at daylight-saving changes

---
 src/session/session_schedule.rs | 60 +++++++++++----------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 18b6b18..9464d8d 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -73,48 +73,19 @@ impl SessionSchedule {
             return true;
         }
 
-        let now_datetime = self.time_zone.from_utc_datetime(&Utc::now().naive_utc());
-        // get today's session start and end datetime
-        let today_start_datetime = now_datetime.date().and_time(self.start_time).unwrap();
-        let today_end_datetime = now_datetime.date().and_time(self.end_time).unwrap();
-        if self.start_day.is_none() && self.end_day.is_none() {
-            // daily session start and end
-            // now should be between today's session start and end datetimes
-            return today_start_datetime <= now_datetime && now_datetime <= today_end_datetime;
-        }
-
-        // if weekdays are given, calculate the weekly start and end datetime
-        let mut weekly_start_date = today_start_datetime.date();
-        let mut weekly_end_date = today_end_datetime.date();
-        let session_start_weekday = self.start_day.unwrap();
-        let session_end_weekday = self.end_day.unwrap();
-        // using only the date, start going back until you find the date which has
-        // same weekday as self.start_day
-        while weekly_start_date.weekday() != session_start_weekday {
-            // go back one date prior
-            weekly_start_date = weekly_start_date.pred();
-            if weekly_start_date.weekday() == session_end_weekday {
-                // means that today's date if already out of sesssion window
-                // because going back end day is encountered
-                return false;
-            }
-        }
-        // weekly start_date is on correct weekday for sesssion
-        // update the date with time of self.start_time
-        let weekly_start_datetime =
-            weekly_start_date.and_time(today_start_datetime.time()).unwrap();
-
-        while weekly_end_date.weekday() != session_end_weekday {
-            // go forward one day
-            weekly_end_date = weekly_end_date.succ();
-            if weekly_end_date.weekday() == session_start_weekday {
-                // means that today's date if already out of sesssion window
-                // because going forward start day is encountered
-                return false;
+        // compare local times only. In some time zones there are local times which do not exist or
+        // exist twice, so start and end can not always be converted to an instant
+        let now = self.time_zone.from_utc_datetime(&Utc::now().naive_utc()).naive_local();
+        match (self.start_day, self.end_day) {
+            (Some(start_day), Some(end_day)) => {
+                // weekly session
+                let start = (start_day.num_days_from_monday(), self.start_time);
+                let end = (end_day.num_days_from_monday(), self.end_time);
+                is_within(&(now.weekday().num_days_from_monday(), now.time()), &start, &end)
             }
+            // daily session
+            _ => is_within(&now.time(), &self.start_time, &self.end_time),
         }
-        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time()).unwrap();
-        weekly_start_datetime <= now_datetime && now_datetime <= weekly_end_datetime
     }
 
     // this is for testing purposes
@@ -155,6 +126,15 @@ impl SessionSchedule {
     }
 }
 
+fn is_within<T: PartialOrd>(now: &T, start: &T, end: &T) -> bool {
+    if start <= end {
+        start <= now && now <= end
+    } else {
+        // session continues past midnight or past the end of the week
+        start <= now || now <= end
+    }
+}
+
 pub fn session_time(time_zone: chrono_tz::Tz) -> bool {
     // create a current datetime = Utc::now()
     // extract the time from above
-- 
2.43.0


From 8a04ea3252fd5dcd314485861c451f749ad10534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 14/23] fix: create non-stop schedules without panicking and
 refuse a single session day

---
 src/session/session_schedule.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 9464d8d..f352c24 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -55,13 +55,17 @@ impl SessionSchedule {
         if is_non_stop && (start_day.is_some() || end_day.is_some()) {
             panic!("start or end day specified without start time or end time");
         }
+        if start_day.is_some() != end_day.is_some() {
+            panic!("start_day and end_day both are mandatory");
+        }
 
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
         SessionSchedule::new(
-            start_time.unwrap(),
+            // a non stop session does not have start and end times
+            start_time.unwrap_or_default(),
             start_day,
-            end_time.unwrap(),
+            end_time.unwrap_or_default(),
             end_day,
             time_zone,
             is_non_stop,
-- 
2.43.0


From 1bd2ef58207ce45a0b9481b4526a3727e1e58c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:41 +0000
Subject: [PATCH 15/23] fix: refuse a session section before the default
 section instead of ignoring it

---
 src/session/session_settings.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 642b4e5..315cde3 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -94,6 +94,7 @@ impl Properties {
 
     pub fn from_str(s: &str) -> Self {
         let mut default_found = false;
+        let mut default_first = true;
         let mut lines = s.lines().peekable();
         let mut default_session_id: Option<SessionId> = None;
         let mut setting_map = HashMap::new();
@@ -104,14 +105,18 @@ impl Properties {
                     // duplicate default section
                     panic!("duplicate default section found");
                 }
+                if !default_first {
+                    panic!("default section should be first section. not found");
+                }
                 let default_section = parse_table(&mut lines);
                 default_found = true;
                 default_session_id = Some(SessionId::default());
                 setting_map.insert(default_session_id.clone().unwrap(), default_section);
-            } else if line.starts_with('[') && line.ends_with(']') && default_found {
+            } else if line.starts_with('[') && line.ends_with(']') {
                 // some other section in config file
                 if !default_found {
-                    panic!("default section should be first section. not found");
+                    default_first = false;
+                    continue;
                 }
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
-- 
2.43.0


From 072eae058dc4f45e2466fecc5e4b1de7d8d006bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:18 +0000
Subject: [PATCH 16/23] fix: skip inbound messages of unknown sessions instead
 of ending the receiver thread

---
 src/network.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index a57f93f..320c250 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -252,8 +252,14 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
 
             let dd = sessions
                 .get_session(&session_id)
-                .map(|sess| Arc::clone(sess.data_dictionary()))
-                .unwrap();
+                .map(|sess| Arc::clone(sess.data_dictionary()));
+            let dd = match dd {
+                Some(dd) => dd,
+                None => {
+                    println!("no session for {}", session_id);
+                    continue;
+                }
+            };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
                 if let Ok(_) = Session::verify(&message, &sessions) {
-- 
2.43.0


From 534000fcaeb7ef7406313aa50b8049fa3c25ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:54 +0000
Subject: [PATCH 17/23] fix: stop reading a connection when it is closed or
 broken

---
 src/io/acceptor.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d76be60..ed0f61f 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -2,7 +2,7 @@ use crate::io::*;
 use crate::message::SOH;
 use std::net::SocketAddr;
 use std::sync::Arc;
-use tokio::io::{AsyncBufReadExt, AsyncWriteExt, BufReader};
+use tokio::io::{self, AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
@@ -71,9 +71,18 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
         loop {
-            read_message(&mut buf_reader, &mut buf).await;
+            match read_message(&mut buf_reader, &mut buf).await {
+                Ok(true) => (),
+                Ok(false) => break,
+                Err(e) => {
+                    println!("Error in reading from connection: {:?}", e);
+                    break;
+                }
+            }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
-            to_app.send(raw_msg).await.unwrap();
+            if to_app.send(raw_msg).await.is_err() {
+                break;
+            }
             buf.clear();
         }
     });
@@ -93,9 +102,15 @@ fn start_app_listner_task(
     });
 }
 
-async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) {
+// returns false if the connection is closed before a complete message
+async fn read_message<R: AsyncBufReadExt + Unpin>(
+    reader: &mut R, buf: &mut Vec<u8>,
+) -> io::Result<bool> {
     loop {
-        let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
+        let bytes_read = reader.read_until(SOH as u8, buf).await?;
+        if bytes_read == 0 || buf.last() != Some(&(SOH as u8)) {
+            return Ok(false);
+        }
         // println!("bytes received: {:?}", &buf);
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
@@ -107,4 +122,5 @@ async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<
             break;
         }
     }
+    Ok(true)
 }
-- 
2.43.0


From 889d8d9063f47e220d940b03b32421b6fcdf969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:57 +0000
Subject: [PATCH 18/23] fix: listen once per port instead of binding again for
 every connection

---
 src/io/acceptor.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index ed0f61f..7fa652c 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -6,6 +6,10 @@ use tokio::io::{self, AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
+use tokio::time::{sleep, Duration};
+
+// wait before binding or accepting again after an error
+const RETRY_INTERVAL: Duration = Duration::from_millis(100);
 
 #[derive(Debug)]
 pub struct IoAcceptor {
@@ -37,17 +41,20 @@ impl IoAcceptor {
         let socket_to_app_send = self.socket_to_app_send.clone();
         let app_to_socket_send = self._app_to_socket_send.clone();
         tokio::spawn(async move {
-            loop {
-                let listener = match TcpListener::bind(bind_addr).await {
+            let listener = loop {
+                match TcpListener::bind(bind_addr).await {
                     Ok(listener) => {
                         println!("listening on {}", bind_addr);
-                        listener
+                        break listener;
                     }
                     Err(e) => {
                         println!("Error in bind: {:?}", e);
+                        sleep(RETRY_INTERVAL).await;
                         continue;
                     }
                 };
+            };
+            loop {
                 let (stream, _) = match listener.accept().await {
                     Ok((stream, remote_addr)) => {
                         println!("accepted connection from {}", remote_addr);
@@ -55,6 +62,7 @@ impl IoAcceptor {
                     }
                     Err(e) => {
                         println!("Error in accepting connection: {:?}", e);
+                        sleep(RETRY_INTERVAL).await;
                         continue;
                     }
                 };
-- 
2.43.0


From 013d9bdda0efb2b7a90514642cb9e62400036fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 19/23] fix: sending to a session without connections does not
 panic, replies to first messages are not missed

---
 src/io/acceptor.rs               | 4 +++-
 src/session/session_and_state.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 7fa652c..51c0a1f 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -67,8 +67,10 @@ impl IoAcceptor {
                     }
                 };
                 let (owned_read, owned_write) = stream.into_split();
+                // subscribe before reading, otherwise a reply to the first message could be missed
+                let from_app = app_to_socket_send.subscribe();
                 start_socket_listener_task(owned_read, socket_to_app_send.clone());
-                start_app_listner_task(owned_write, app_to_socket_send.subscribe());
+                start_app_listner_task(owned_write, from_app);
             }
         });
     }
diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 4214ebd..dfe6ea1 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -101,7 +101,9 @@ impl Session {
         // let synchronous_send = true;
         let sess_ref = sessions.get_session(session_id).unwrap();
         let responder = sess_ref.responder.as_ref().unwrap().clone();
-        responder.send(msg.to_string()).unwrap();
+        if responder.send(msg.to_string()).is_err() {
+            println!("no connection to send the message of session {}", session_id);
+        }
         // if !synchronous_send {
         //     tokio::spawn(async move {
         //         responder.send(msg.to_string()).await.unwrap();
-- 
2.43.0


From d28e0b9d21afd5d1f3304d98675656e6a6e5496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 20/23] fix: keep sending on a connection that was too slow for
 some messages

---
 src/io/acceptor.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 51c0a1f..6438c79 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -104,9 +104,20 @@ fn start_app_listner_task(
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         // if there is message to be sent out to remote socket then read and send
-        while let Ok(msg) = from_app.recv().await {
+        loop {
+            let msg = match from_app.recv().await {
+                Ok(msg) => msg,
+                Err(broadcast::error::RecvError::Lagged(n)) => {
+                    println!("connection too slow, {} messages not sent", n);
+                    continue;
+                }
+                Err(broadcast::error::RecvError::Closed) => break,
+            };
             println!("sending {}", &msg);
-            let _res = write_half.write_all(msg.as_bytes()).await.unwrap();
+            if let Err(e) = write_half.write_all(msg.as_bytes()).await {
+                println!("Error in sending: {:?}", e);
+                break;
+            }
             println!("sent {}", &msg);
         }
     });
-- 
2.43.0


From 9860629401054e99625af520d4890e0e39a23010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:01 +0000
Subject: [PATCH 21/23] fix: release a connection's socket when its peer closes
 it

---
 src/io/acceptor.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index 6438c79..6edc5c5 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -6,6 +6,7 @@ use tokio::io::{self, AsyncBufReadExt, AsyncWriteExt, BufReader};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpListener;
 use tokio::sync::mpsc::{channel as tio_channel, Receiver as TioReceiver, Sender as TioSender};
+use tokio::sync::oneshot;
 use tokio::time::{sleep, Duration};
 
 // wait before binding or accepting again after an error
@@ -69,15 +70,20 @@ impl IoAcceptor {
                 let (owned_read, owned_write) = stream.into_split();
                 // subscribe before reading, otherwise a reply to the first message could be missed
                 let from_app = app_to_socket_send.subscribe();
-                start_socket_listener_task(owned_read, socket_to_app_send.clone());
-                start_app_listner_task(owned_write, from_app);
+                // dropping the sender tells the writing task that the peer is gone
+                let (reading, closed) = oneshot::channel::<()>();
+                start_socket_listener_task(owned_read, socket_to_app_send.clone(), reading);
+                start_app_listner_task(owned_write, from_app, closed);
             }
         });
     }
 }
 
-fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String>) {
+fn start_socket_listener_task(
+    read_half: OwnedReadHalf, to_app: TioSender<String>, reading: oneshot::Sender<()>,
+) {
     tokio::spawn(async move {
+        let _reading = reading;
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
         loop {
@@ -100,12 +106,18 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
 
 fn start_app_listner_task(
     mut write_half: OwnedWriteHalf, mut from_app: TioBroadcastReceiver<String>,
+    mut closed: oneshot::Receiver<()>,
 ) {
     tokio::spawn(async move {
         println!("starting internal msg receiv");
         // if there is message to be sent out to remote socket then read and send
         loop {
-            let msg = match from_app.recv().await {
+            let received = tokio::select! {
+                biased;
+                received = from_app.recv() => received,
+                _ = &mut closed => break,
+            };
+            let msg = match received {
                 Ok(msg) => msg,
                 Err(broadcast::error::RecvError::Lagged(n)) => {
                     println!("connection too slow, {} messages not sent", n);
-- 
2.43.0


From 01d0a7b2e18991357cf0a9f5a6d70a9180783b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 22/23] fix: set the outgoing channel of all sessions before
 accepting connections

A message could name a session of another port that was not set up yet; answering it panicked the receiver thread.
---
 src/network.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/network.rs b/src/network.rs
index 320c250..d0d976f 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -199,9 +199,12 @@ impl<A: Application + Send + Sync + 'static> SocketAcceptor<A> {
             for (accepted_sid, _) in s_desc.accepted_connections() {
                 self.set_session_responder(accepted_sid, app_to_socket_tx.clone());
             }
-            io_acceptor.start();
             io_acceptors.insert(s_desc.clone(), io_acceptor);
         }
+        // only now, a message can name any session, whatever port it comes in on
+        for io_acceptor in io_acceptors.values() {
+            io_acceptor.start();
+        }
     }
 }
 
-- 
2.43.0


From 48163cbee2ff263b90a5c4713dbc0ccef54c81a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 23/23] fix: checksum of a message of 17 MB or more overflows

---
 src/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index c7313f8..2791d80 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -294,6 +294,8 @@ impl Message {
             if sfield.tag() != 10 {
                 for byt in sfield.to_string().as_bytes() {
                     byte_sum = byte_sum + *byt as u32;
+                    // the sum of a long message does not fit
+                    byte_sum %= 256;
                 }
             }
         }
-- 
2.43.0

