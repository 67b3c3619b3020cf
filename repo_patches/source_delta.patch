From 9317da7ea1b7a849071e6d7ee06c2067a85b4f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 01/50] fix: read Line Style="double" as a double line

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 9d4a2cb..0191e5c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -105,7 +105,7 @@ impl LineStyle {
       Some("solid") => Some(LineStyle::Solid),
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
-      Some("double") => Some(LineStyle::Dotted),
+      Some("double") => Some(LineStyle::Double),
       _ => None,
     }
   }
-- 
2.43.0


From bb9a05d4ac0c6865a512e7a777717247470f0ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 02/50] fix: write the required RemarksLabel of Remarks

---
 src/remarks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remarks.rs b/src/remarks.rs
index 3cc1b79..3ce447c 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -56,6 +56,8 @@ impl Parser for Remarks {
 impl ToXmlElement for Remarks {
   fn to_xml_element(&self) -> Element {
     let mut e = Element::new("Remarks");
+    e.children
+      .push(XMLNode::Element(self.label.to_xml_element()));
     for n in self.children.iter() {
       match n {
         RemarksContents::Item(v) => {
-- 
2.43.0


From df249b6dcc1f33be38a4a529f3b81918506da702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 03/50] fix: write the range end of a number once, with or
 without branch numbers

---
 src/article_number.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 65b3a53..77dcdba 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -25,16 +25,10 @@ impl ArticleNumber {
     for n in self.eda_numbers.iter() {
       s.push('_');
       s.push_str(&n.to_string());
-      if !self.range_end_numbers.is_empty() {
-        let l = &self.range_end_numbers;
-        let mut l = l.iter();
-        s.push(':');
-        s.push_str(&l.next().unwrap().to_string());
-        for n in l {
-          s.push('_');
-          s.push_str(&n.to_string());
-        }
-      }
+    }
+    for (i, n) in self.range_end_numbers.iter().enumerate() {
+      s.push(if i == 0 { ':' } else { '_' });
+      s.push_str(&n.to_string());
     }
     s
   }
-- 
2.43.0


From 1bd24d696132b861928e24511b14dff9719dd91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 04/50] fix: report a Law without Num as an error instead of
 panicking

---
 src/law.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 6a8c383..2c0fd06 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -61,11 +61,11 @@ impl Parser for Law {
         }
       };
       let year = get_attribute_with_parse(element, "Year")?;
-      let num_str = element.attributes.get("Num").unwrap();
+      let num_str = get_attribute(element, "Num")?;
       let num = if num_str.is_empty() {
         None
       } else {
-        Some(ArticleNumber::from_str(num_str)?)
+        Some(ArticleNumber::from_str(&num_str)?)
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
-- 
2.43.0


From c6702f79fb17f5e5c9e6d7397c1a901b644dd080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:05 +0000
Subject: [PATCH 05/50] fix: write the required Num attribute of a Law without
 number

---
 src/law.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 2c0fd06..4aea255 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -206,9 +206,9 @@ impl ToXmlElement for Law {
     }
     e.attributes
       .insert("Year".to_string(), self.year.to_string());
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if let Some(n) = &self.promulgate_month {
       e.attributes
         .insert("PromulgateMonth".to_string(), n.to_string());
-- 
2.43.0


From 05b841f08f8ad32f72b63dc0db2e1834ce9d2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 06/50] fix: write the required Num attribute of items without
 number

---
 src/paragraph.rs | 66 ++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index baa7a5e..2df825d 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -289,9 +289,9 @@ impl ToXmlElement for Item {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -433,9 +433,9 @@ impl ToXmlElement for Subitem1 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -577,9 +577,9 @@ impl ToXmlElement for Subitem2 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -721,9 +721,9 @@ impl ToXmlElement for Subitem3 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -865,9 +865,9 @@ impl ToXmlElement for Subitem4 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1009,9 +1009,9 @@ impl ToXmlElement for Subitem5 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1153,9 +1153,9 @@ impl ToXmlElement for Subitem6 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1297,9 +1297,9 @@ impl ToXmlElement for Subitem7 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1441,9 +1441,9 @@ impl ToXmlElement for Subitem8 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1585,9 +1585,9 @@ impl ToXmlElement for Subitem9 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1717,9 +1717,9 @@ impl ToXmlElement for Subitem10 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    let num_str = self.num.as_ref().map(|n| n.num_str());
+    e.attributes
+      .insert("Num".to_string(), num_str.unwrap_or_default());
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
-- 
2.43.0


From 1d3eba0bd13b8289d3cb711cfa5bc9eba691198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 07/50] fix: write the Num attribute of ArithFormula

---
 src/contents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contents.rs b/src/contents.rs
index bde732d..b1ec490 100644
--- a/src/contents.rs
+++ b/src/contents.rs
@@ -312,6 +312,10 @@ impl Parser for ArithFormula {
 
 impl ToXmlElement for ArithFormula {
   fn to_xml_element(&self) -> Element {
-    self.contentes.to_xml_element_with_name("ArithFormula")
+    let mut e = self.contentes.to_xml_element_with_name("ArithFormula");
+    if let Some(n) = &self.num {
+      e.attributes.insert("Num".to_string(), n.to_string());
+    }
+    e
   }
 }
-- 
2.43.0


From 4648ad2883a0ae7d6ec1cccfd9e9f1f3208e9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 08/50] fix: write TOCPreambleLabel under its own name

---
 src/table_of_contents.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 8417bf2..9fffb87 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -89,8 +89,9 @@ impl ToXmlElement for TOC {
         .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
     }
     if let Some(label) = &self.toc_preamble_label {
-      e.children
-        .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
+      e.children.push(XMLNode::Element(
+        label.to_xml_element_with_name("TOCPreambleLabel"),
+      ));
     }
     for v in self.toc_main_contents.iter() {
       match v {
-- 
2.43.0


From 3161505df832777bb8f7208975210195252e9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 09/50] fix: write new provisions as NewProvision elements

---
 src/law.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/law.rs b/src/law.rs
index 4aea255..e4aafef 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -892,7 +892,7 @@ impl ToXmlElement for AmendProvision {
       e.children.push(XMLNode::Element(se));
     }
     for v in self.new_provision.iter() {
-      let mut se = Element::new("AmendProvisionSentence");
+      let mut se = Element::new("NewProvision");
       match v {
         NewProvision::LawTitle(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
         NewProvision::Preamble(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
-- 
2.43.0


From 5c187dc9dc76b9de1ce60d7415ca699895a44e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 10/50] fix: write Align and Valign of table columns under
 their own names

---
 src/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9a9c7b7..b1cab15 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -309,10 +309,10 @@ impl ToXmlElement for TableColumn {
       e.attributes.insert("colspan".to_string(), s.clone());
     }
     if let Some(a) = &self.align {
-      e.attributes.insert("rowspan".to_string(), a.to_attribute());
+      e.attributes.insert("Align".to_string(), a.to_attribute());
     }
     if let Some(v) = &self.valign {
-      e.attributes.insert("rowspan".to_string(), v.to_attribute());
+      e.attributes.insert("Valign".to_string(), v.to_attribute());
     }
     for n in self.contents.iter() {
       match n {
-- 
2.43.0


From 40b7ba0b757841fca0f697928f7b0c82a39d5a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 11/50] fix: write RelatedArticleNum of appendices under its
 own name

---
 src/appdx.rs           | 2 +-
 src/suppl_provision.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index 6d17c9b..d739d31 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -401,7 +401,7 @@ impl ToXmlElement for Appdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index c7c5f69..249028d 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -355,7 +355,7 @@ impl ToXmlElement for SupplProvisionAppdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From b23cc97e5313a56bc392757eac8199249ab4e172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 12/50] fix: write SupplProvisionAppdx under its own name

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 249028d..249a385 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -347,7 +347,7 @@ impl Parser for SupplProvisionAppdx {
 
 impl ToXmlElement for SupplProvisionAppdx {
   fn to_xml_element(&self) -> Element {
-    let mut e = Element::new("Appdx");
+    let mut e = Element::new("SupplProvisionAppdx");
     if let Some(v) = &self.arith_formula_num {
       e.children.push(XMLNode::Element(
         v.to_xml_element_with_name("ArithFormulaNum"),
-- 
2.43.0


From 002c31d5be0a4006d84f61db5169e41c5177ffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:54 +0000
Subject: [PATCH 13/50] fix: write SupplProvisionAppdxTableTitle with its right
 spelling

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 249a385..a013743 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -210,7 +210,7 @@ impl ToXmlElement for SupplProvisionAppdxTable {
     e.children.push(XMLNode::Element(
       self
         .title
-        .to_xml_element_with_name("SupplProvisionAppdxTableitle"),
+        .to_xml_element_with_name("SupplProvisionAppdxTableTitle"),
     ));
     if let Some(t) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-- 
2.43.0


From 4bad7911d791b35ec12c8491593743e7ff442e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 14/50] fix: report invalid Remarks inside structs instead of
 dropping them

---
 src/structs.rs | 55 +++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 49713ed..c20ac56 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -83,12 +83,11 @@ impl Parser for NoteStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if note.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  note_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if note.is_none() {
+                title_remarks.push(r);
+              } else {
+                note_remarks.push(r);
               }
             }
             "Note" => {
@@ -159,12 +158,11 @@ impl Parser for StyleStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if style.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  style_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if style.is_none() {
+                title_remarks.push(r);
+              } else {
+                style_remarks.push(r);
               }
             }
             "Style" => {
@@ -235,12 +233,11 @@ impl Parser for FormatStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if format.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  format_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if format.is_none() {
+                title_remarks.push(r);
+              } else {
+                format_remarks.push(r);
               }
             }
             "Format" => {
@@ -311,12 +308,11 @@ impl Parser for FigStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if fig.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  fig_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if fig.is_none() {
+                title_remarks.push(r);
+              } else {
+                fig_remarks.push(r);
               }
             }
             "Fig" => {
@@ -387,12 +383,11 @@ impl Parser for TableStruct {
               title = Some(v);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if table.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  table_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if table.is_none() {
+                title_remarks.push(r);
+              } else {
+                table_remarks.push(r);
               }
             }
             "Table" => {
-- 
2.43.0


From aa0e223c365dfc0c775ea44776bc15e68ee90f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 15/50] fix: accept an Article without children after its title
 instead of panicking

---
 src/article.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/article.rs b/src/article.rs
index 5316e62..baec35f 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -651,7 +651,9 @@ impl Parser for Article {
             break;
           }
         }
-        let next = children.next().unwrap();
+        let Some(next) = children.next() else {
+          break;
+        };
         if let XMLNode::Element(e) = next {
           match e.name.as_str() {
             "ArticleCaption" => {
-- 
2.43.0


From 8b6218a69a99864f821bc98023a41ca02e71b37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:41 +0000
Subject: [PATCH 16/50] fix: read documents independently of comments,
 processing instructions and CDATA

---
 src/lib.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63925fa..e6b8b72 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,15 +49,38 @@ use koyomi::{era, Date};
 use result::*;
 use std::io::{Read, Write};
 use to_xml::ToXmlElement;
-use xmltree::Element;
+use xmltree::{Element, XMLNode};
 
 /// XML文字列を法律の構造体に変換する
 pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
-  let element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  let mut element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  normalize_children(&mut element);
   let law = law::Law::parser(&element)?;
   Ok(law)
 }
 
+/// コメントと処理命令を取り除き、それらやCDATAで分断された文字列を一つにまとめる
+fn normalize_children(element: &mut Element) {
+  let mut children = Vec::with_capacity(element.children.len());
+  for node in std::mem::take(&mut element.children) {
+    match node {
+      XMLNode::Element(mut e) => {
+        normalize_children(&mut e);
+        children.push(XMLNode::Element(e));
+      }
+      XMLNode::Text(s) | XMLNode::CData(s) => {
+        if let Some(XMLNode::Text(text)) = children.last_mut() {
+          text.push_str(&s);
+        } else {
+          children.push(XMLNode::Text(s));
+        }
+      }
+      XMLNode::Comment(_) | XMLNode::ProcessingInstruction(_, _) => (),
+    }
+  }
+  element.children = children;
+}
+
 /// ファイルのパスから法律の構造体に変換する
 pub fn parse_xml_file(path: &str) -> Result<law::Law> {
   let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?;
-- 
2.43.0


From e40bdb2177be4fb6dc343c6545325d6b1bf89e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 17/50] fix: print nothing while parsing item numbers

---
 src/article_number.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 77dcdba..beb33f6 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -557,7 +557,6 @@ fn check_parse_article_number() {
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
-    println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
         m.as_str()
@@ -600,7 +599,6 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
       None
     }
   } else {
-    println!("err!!");
     None
   }
 }
-- 
2.43.0


From 7cc1d43874eb7146ff6087e43f4e427b6d098dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 18/50] fix: print parenthesised Roman item numbers in their
 own case

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index beb33f6..d1e65bc 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -385,10 +385,10 @@ impl ItemPattern {
       }
       ItemPattern::ParenZenkakuNum => format!("（{}）", to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuRomanUpper => {
-        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuRomanLower => {
-        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
       }
       ItemPattern::ParenZenkakuUpper => {
         format!("（{}）", to_zenkaku_alphabet_upper(n))
-- 
2.43.0


From ce4baa6958600c593390726f9ed0e38d00396ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 19/50] fix: handle V in Roman item numbers

---
 src/article_number.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index d1e65bc..f3fe8f6 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -849,14 +849,17 @@ fn parse_roman(str: &str) -> Option<usize> {
   roman::from(
     &str
       .replace('i', "I")
+      .replace('v', "V")
       .replace('x', "X")
       .replace('l', "L")
       .replace('c', "C")
       .replace('ｉ', "I")
+      .replace('ｖ', "V")
       .replace('ｘ', "X")
       .replace('ｌ', "L")
       .replace('ｃ', "C")
       .replace('Ｉ', "I")
+      .replace('Ｖ', "V")
       .replace('Ｘ', "X")
       .replace('Ｌ', "L")
       .replace('Ｃ', "C"),
@@ -867,6 +870,7 @@ fn parse_roman(str: &str) -> Option<usize> {
 fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "Ｉ")
+      .replace('V', "Ｖ")
       .replace('X', "Ｘ")
       .replace('L', "Ｌ")
       .replace('C', "Ｃ")
@@ -876,6 +880,7 @@ fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
 fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   roman::to(n as i32).map(|s| {
     s.replace('I', "ｉ")
+      .replace('V', "ｖ")
       .replace('X', "ｘ")
       .replace('L', "ｌ")
       .replace('C', "ｃ")
-- 
2.43.0


From 2ffbeb7634ab14c04463a583283003bc123b02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:26 +0000
Subject: [PATCH 20/50] fix: print alphabetic item numbers as letters instead
 of panicking

---
 src/article_number.rs | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index f3fe8f6..ab071fe 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -888,41 +888,38 @@ fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
 }
 
 fn parse_zenkaku_alphabet(str: &str) -> Option<usize> {
-  let s = str
-    .chars()
-    .map(|c| {
-      let v = c as u32;
-      let n =
+  let mut n: usize = 0;
+  for c in str.chars() {
+    let v = c as usize;
+    let d =
     // 大文字
     if v < 0xFF41 {
       v - 0xFF20
     } else {
       v - 0xFF40
     };
-      n.to_string()
-    })
-    .collect::<String>();
-  s.parse::<usize>().ok()
+    n = n.checked_mul(26)?.checked_add(d)?;
+  }
+  Some(n)
+}
+
+/// aからzまでの次はaaとなるように文字列にする
+fn to_alphabet(mut n: usize, first: char) -> String {
+  let mut chars = Vec::new();
+  while n > 0 {
+    n -= 1;
+    chars.extend(char::from_u32(first as u32 + (n % 26) as u32));
+    n /= 26;
+  }
+  chars.iter().rev().collect()
 }
 
 fn to_zenkaku_alphabet_upper(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF20, 10).unwrap()
-    })
-    .collect::<String>()
+  to_alphabet(n, 'Ａ')
 }
 
 fn to_zenkaku_alphabet_lower(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF40, 10).unwrap()
-    })
-    .collect::<String>()
+  to_alphabet(n, 'ａ')
 }
 
 #[test]
-- 
2.43.0


From 769bf518a9a98ffbb07deeb72625123af3d1be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:51 +0000
Subject: [PATCH 21/50] fix: report strings that are no item number as such
 instead of panicking

---
 src/article_number.rs | 58 +++++++++++++------------------------------
 1 file changed, 17 insertions(+), 41 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index ab071fe..ba9b3d3 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -430,77 +430,53 @@ impl ItemPattern {
 fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   use ItemPattern::*;
   let re_item = Regex::new(r"^(?<str>(（((?<paren_iroha_katakana>[ア-ン]+)|(?<paren_iroha_hiragana>[あ-ん]+)|(?<paren_kansuji>[一二三四五六七八九十百千]+)|(?<paren_zenkaku_num>[０-９]+)|(?<paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<paren_zenkaku_lower>[ａ-ｚ]+))）|((?<no_paren_iroha_katakana>[ア-ン]+)|(?<no_paren_iroha_hiragana>[あ-ん]+)|(?<no_paren_kansuji>[一二三四五六七八九十百千]+)|(?<no_paren_zenkaku_num>[０-９]+)|(?<no_paren_zenkaku_upper>[Ａ-Ｚ]+)|(?<no_paren_zenkaku_lower>[ａ-ｚ]+))))").unwrap();
-  let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
+  let re_is_roman = Regex::new(r"^[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+$").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
-      (
-        ParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_iroha_hiragana") {
-      (
-        ParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (ParenKansuji, n as usize)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
-      (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     }
     // 括弧なし
     else if let Some(s) = caps.name("no_paren_iroha_katakana") {
-      (
-        NoParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_iroha_hiragana") {
-      (
-        NoParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (NoParenKansuji, n as usize)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
-      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else {
       unreachable!()
-- 
2.43.0


From eae00add2979b6d7940392cefd85105d08d8b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:51 +0000
Subject: [PATCH 22/50] fix: keep range ends and hiragana branches of item
 numbers

---
 src/article_number.rs | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index ba9b3d3..c32a2dc 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -530,39 +530,30 @@ fn check_parse_article_number() {
   }
 }
 
+/// 「の二の三」のように「の」で始まる枝番号の列を読む
+fn parse_item_eda_numbers(str: &str) -> Option<Vec<usize>> {
+  let re = Regex::new(r"の(?<number>（[^（）]+）|.[^の]*)").unwrap();
+  re.captures_iter(str)
+    .map(|caps| parse_item_number_base(&caps["number"]).map(|(_, n)| n))
+    .collect()
+}
+
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
-  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
+  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン])|([あ-ん])|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
-        m.as_str()
-          .split('の')
-          .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>()
+        parse_item_eda_numbers(m.as_str())?
       } else {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
-      if let Some(m) = &caps.name("base_number_2") {
-        if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
-          range_end_numbers.push(base_number2);
-        }
+      if let Some(m) = &caps.name("base_number2") {
+        let (_, base_number2) = parse_item_number_base(m.as_str())?;
+        range_end_numbers.push(base_number2);
       }
-      if let Some(m) = &caps.name("eda_number_2") {
-        let eda_numbers2 = &m
-          .as_str()
-          .split('の')
-          .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>();
-        for v in eda_numbers2.iter() {
-          range_end_numbers.push(*v)
-        }
+      if let Some(m) = &caps.name("eda_numbers2") {
+        range_end_numbers.extend(parse_item_eda_numbers(m.as_str())?);
       }
       Some(ItemNumber {
         str: str.to_string(),
-- 
2.43.0


From 80db6485b76d1ad0d82802a5c328ee111dc62662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:16 +0000
Subject: [PATCH 23/50] fix: read paragraph labels with any branch particle,
 branched range ends and huge numbers

---
 src/article_number.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index c32a2dc..7524649 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -202,6 +202,15 @@ impl FromStr for ArticleNumber {
   }
 }
 
+/// 段落番号の枝番号の列を読む
+fn parse_paragraph_eda_numbers(str: &str) -> Option<Vec<usize>> {
+  str
+    .split(['の', 'ノ'])
+    .filter(|s| !s.is_empty())
+    .map(|s| s.parse::<usize>().ok().or_else(|| parse_zenkaku_num(s)))
+    .collect()
+}
+
 pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*))まで)?").unwrap();
   let re_paragraph = Regex::new(
@@ -211,7 +220,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   if let Some(caps) = re_article.captures(str) {
     // 編-条
     let base_number = if let Some(arabic_num) = caps.name("arabic_num") {
-      arabic_num.as_str().parse::<usize>().unwrap()
+      arabic_num.as_str().parse::<usize>().ok()?
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
@@ -243,7 +252,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     let mut range_end_numbers = Vec::new();
     if let Some(arabic_num) = caps.name("arabic_num_2") {
-      range_end_numbers.push(arabic_num.as_str().parse::<usize>().unwrap())
+      range_end_numbers.push(arabic_num.as_str().parse::<usize>().ok()?)
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
@@ -279,19 +288,9 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     let base_number = if let Ok(n) = &caps["num"].parse::<usize>() {
       *n
     } else {
-      parse_zenkaku_num(&caps["num"]).unwrap()
+      parse_zenkaku_num(&caps["num"])?
     };
-    let eda_numbers = &caps["eda_str"]
-      .split('の')
-      .filter(|s| !s.is_empty())
-      .map(|s| {
-        if let Ok(n) = s.parse::<usize>() {
-          n
-        } else {
-          parse_zenkaku_num(s).unwrap()
-        }
-      })
-      .collect::<Vec<usize>>();
+    let eda_numbers = parse_paragraph_eda_numbers(&caps["eda_str"])?;
     let mut range_end_numbers = Vec::new();
     if let Some(m) = caps.name("num_2") {
       if let Ok(n) = m.as_str().parse::<usize>() {
@@ -300,9 +299,12 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         range_end_numbers.push(parse_zenkaku_num(m.as_str())?);
       }
     }
+    if let Some(m) = caps.name("eda_str_2") {
+      range_end_numbers.extend(parse_paragraph_eda_numbers(m.as_str())?);
+    }
     Some(ArticleNumber {
       base_number,
-      eda_numbers: eda_numbers.clone(),
+      eda_numbers,
       range_end_numbers,
     })
   } else {
-- 
2.43.0


From 13408b57ff6135d6cc51b3279fe012f5f7cc020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:16 +0000
Subject: [PATCH 24/50] fix: accept both branch particles in the range end of
 heading labels

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 7524649..e77cf8c 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -263,7 +263,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
         .as_str()
-        .split('の')
+        .split(['の', 'ノ'])
         .filter(|s| !s.is_empty())
         .collect::<Vec<_>>();
       for s in eda_numbers_2.iter() {
-- 
2.43.0


From ef17181a5869cf9614ffbf6a85b3b31839def4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:36 +0000
Subject: [PATCH 25/50] fix: reject number keys with signs or more than one
 range end

---
 src/article_number.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index e77cf8c..8458e98 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -37,10 +37,7 @@ impl ArticleNumber {
   pub fn from_num_str(num_str: &str) -> Result<Self> {
     let mut num_s_lst = num_str.split(':');
     let num_str = num_s_lst.next().unwrap();
-    let n_lst = num_str.split('_').map(|s| {
-      s.parse::<usize>()
-        .map_err(|_| Error::ParsingError("usize".to_string(), s.to_string()))
-    });
+    let n_lst = num_str.split('_').map(parse_num_key);
     let mut base_number = None;
     let mut eda_numbers = Vec::new();
     for res in n_lst {
@@ -58,10 +55,7 @@ impl ArticleNumber {
     if let Some(base_number) = base_number {
       let mut range_end_numbers = Vec::new();
       if let Some(s) = num_s_lst.next() {
-        let n_lst = s.split('_').map(|s| {
-          s.parse::<usize>()
-            .map_err(|_| Error::ParsingError("usize".to_string(), s.to_string()))
-        });
+        let n_lst = s.split('_').map(parse_num_key);
         for res in n_lst {
           match res {
             Ok(n) => range_end_numbers.push(n),
@@ -69,6 +63,12 @@ impl ArticleNumber {
           }
         }
       }
+      if let Some(s) = num_s_lst.next() {
+        return Err(Error::ParsingError(
+          "ArticleNumber".to_string(),
+          s.to_string(),
+        ));
+      }
       Ok(ArticleNumber {
         base_number,
         eda_numbers,
@@ -195,6 +195,16 @@ impl ArticleNumber {
   }
 }
 
+/// 符号を許さずに数字のみを読む
+fn parse_num_key(s: &str) -> Result<usize> {
+  if s.bytes().all(|b| b.is_ascii_digit()) {
+    s.parse::<usize>()
+      .map_err(|_| Error::ParsingError("usize".to_string(), s.to_string()))
+  } else {
+    Err(Error::ParsingError("usize".to_string(), s.to_string()))
+  }
+}
+
 impl FromStr for ArticleNumber {
   type Err = Error;
   fn from_str(s: &str) -> std::prelude::v1::Result<Self, Self::Err> {
-- 
2.43.0


From 3cd3815c469e369736e33eb97e7e9da6f42bcb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:47 +0000
Subject: [PATCH 26/50] fix: include table cells in the text of Subitem6

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6b1029d..b6222cb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -629,7 +629,7 @@ fn text_list_from_subitem6(
         })
         .collect::<Vec<_>>()
         .join(" "),
-      SentenceOrColumnOrTable::Table(_) => String::new(),
+      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
     };
     v.push((
       TextIndex {
-- 
2.43.0


From f483c99d0fdcfcac53624a943887cd4cb45b6e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 27/50] fix: list articles with the numbers of their own
 headings

---
 src/utils.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index b6222cb..a8ca174 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -211,7 +211,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_part(Some(t.num.clone()));
+            w.set_part(Some(part.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -219,7 +219,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
       }
       PartContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_part(Some(t.num.clone()));
+        w.set_part(Some(part.num.clone()));
         v.push(w)
       }
     }
@@ -227,16 +227,16 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
+fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in chapter.children.iter() {
     match contents {
       ChapterContents::Section(t) => {
         let mut v2 = article_list_from_section(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_chapter(Some(t.num.clone()));
+            w.set_chapter(Some(chapter.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -244,7 +244,7 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
       }
       ChapterContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_chapter(Some(t.num.clone()));
+        w.set_chapter(Some(chapter.num.clone()));
         v.push(w)
       }
     }
@@ -252,16 +252,16 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
+fn article_list_from_section(section: &Section) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in section.children.iter() {
     match contents {
       SectionContents::Subsection(t) => {
         let mut v2 = article_list_from_subsection(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -272,7 +272,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -280,7 +280,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
       }
       SectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_section(Some(t.num.clone()));
+        w.set_section(Some(section.num.clone()));
         v.push(w)
       }
     }
@@ -289,16 +289,16 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
 }
 
 #[allow(clippy::too_many_arguments)]
-fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
+fn article_list_from_subsection(subsection: &Subsection) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in subsection.children.iter() {
     match contents {
       SubsectionContents::Division(t) => {
         let mut v2 = article_list_from_division(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_subsection(Some(t.num.clone()));
+            w.set_subsection(Some(subsection.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -306,7 +306,7 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
       }
       SubsectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_subsection(Some(t.num.clone()));
+        w.set_subsection(Some(subsection.num.clone()));
         v.push(w)
       }
     }
-- 
2.43.0


From 0f07a3aada1e7d3fa07f632e1138eb90176c5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 28/50] fix: keep the article number of table of contents
 entries as such

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index a8ca174..3cf8921 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -940,7 +940,7 @@ impl Toc {
     self.division_number = num;
   }
   pub fn set_article(&mut self, num: Option<ArticleNumber>) {
-    self.division_number = num;
+    self.article_number = num;
   }
   pub fn set_title(&mut self, title: Option<String>) {
     self.title = title;
-- 
2.43.0


From 179d56c62bf3e6d06ba1ceb66c764b0f639e89dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:14 +0000
Subject: [PATCH 29/50] fix: keep article and heading numbers out of later
 table of contents entries

---
 src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3cf8921..daa662f 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1029,12 +1029,13 @@ fn toc_list_from_part(t: &Part) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       PartContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
         v.push(toc.clone());
       }
       PartContents::Chapter(t) => {
-        let mut toc_list = toc_list_from_chapter(t, &mut toc);
+        let mut toc_list = toc_list_from_chapter(t, &mut toc.clone());
         v.append(&mut toc_list);
       }
     }
@@ -1051,6 +1052,7 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       ChapterContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
         v.push(toc.clone());
@@ -1073,6 +1075,7 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
         v.push(toc.clone());
@@ -1099,6 +1102,7 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SubsectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
         v.push(toc.clone());
@@ -1119,6 +1123,7 @@ fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.division_title.to_string()));
   v.push(toc.clone());
   for t in t.children.iter() {
+    let mut toc = toc.clone();
     toc.set_article(Some(t.num.clone()));
     toc.set_title(Some(t.title.to_string()));
     v.push(toc.clone());
-- 
2.43.0


From 4572986bb81df9366d71efd4bc8c5fea7933316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:30 +0000
Subject: [PATCH 30/50] fix: name the elements of the schema in errors

---
 src/list.rs              |  2 +-
 src/suppl_provision.rs   | 16 ++++++++--------
 src/table_of_contents.rs |  4 ++--
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 5ddb1bd..944700b 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -53,7 +53,7 @@ impl Parser for List {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "LiseSentence"));
+        return Err(Error::wrong_tag_name(element, "ListSentence"));
       }
       let mut sublist = Vec::new();
       for node in children {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index a013743..0aee779 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -31,7 +31,7 @@ impl Parser for SupplProvision {
         None => None,
         _ => {
           return Err(Error::AttributeParseError {
-            tag_name: "SupplProbision".to_string(),
+            tag_name: "SupplProvision".to_string(),
             attribute_name: "Type".to_string(),
           })
         }
@@ -82,7 +82,7 @@ impl Parser for SupplProvision {
         extract,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbision"))
+      Err(Error::wrong_tag_name(element, "SupplProvision"))
     }
   }
 }
@@ -182,7 +182,7 @@ impl Parser for SupplProvisionAppdxTable {
               let v = TableStruct::parser(e)?;
               table_struct.push(v)
             }
-            s => return Err(Error::wrong_tag_name(e, s)),
+            s => return Err(Error::unexpected_tag(element, s)),
           }
         }
       }
@@ -195,11 +195,11 @@ impl Parser for SupplProvisionAppdxTable {
         })
       } else {
         Err(Error::MissingRequiredTag {
-          tag_name: "SupplProbisionAddxTableTitle".to_string(),
+          tag_name: "SupplProvisionAppdxTableTitle".to_string(),
         })
       }
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdxTable"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdxTable"))
     }
   }
 }
@@ -269,11 +269,11 @@ impl Parser for SupplProvisionAppdxStyle {
         })
       } else {
         Err(Error::MissingRequiredTag {
-          tag_name: "SupplProbivionAppdxStyle".to_string(),
+          tag_name: "SupplProvisionAppdxStyleTitle".to_string(),
         })
       }
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdxStyle"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdxStyle"))
     }
   }
 }
@@ -340,7 +340,7 @@ impl Parser for SupplProvisionAppdx {
         num,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "SupplProbisionAppdx"))
+      Err(Error::wrong_tag_name(element, "SupplProvisionAppdx"))
     }
   }
 }
diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 9fffb87..31fe5e7 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -559,7 +559,7 @@ impl Parser for TOCArticle {
         })
       } else {
         Err(Error::MissingRequiredTag {
-          tag_name: "Caption".to_string(),
+          tag_name: "ArticleCaption".to_string(),
         })
       }
     } else {
@@ -632,7 +632,7 @@ impl Parser for TOCSupplProvision {
         children,
       })
     } else {
-      Err(Error::wrong_tag_name(element, "TOCSupplProbision"))
+      Err(Error::wrong_tag_name(element, "TOCSupplProvision"))
     }
   }
 }
-- 
2.43.0


From 7fbf1dfc103170898e4c9b83f60558126030becb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:30 +0000
Subject: [PATCH 31/50] fix: report unexpected elements in table rows and
 preambles instead of dropping them

---
 src/law.rs   | 2 ++
 src/table.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/law.rs b/src/law.rs
index e4aafef..4d5c4e6 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -535,6 +535,8 @@ impl Parser for Preamble {
           if e.name.as_str() == "Paragraph" {
             let v = Paragraph::parser(e)?;
             children.push(v)
+          } else {
+            return Err(Error::unexpected_tag(element, &e.name));
           }
         }
       }
diff --git a/src/table.rs b/src/table.rs
index b1cab15..10cb612 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -88,6 +88,8 @@ impl Parser for TableHeaderRow {
           if e.name.as_str() == "TableHeaderColumn" {
             let text = Text::from_children(&e.children);
             columns.push(text);
+          } else {
+            return Err(Error::unexpected_tag(element, &e.name));
           }
         }
       }
@@ -124,6 +126,8 @@ impl Parser for TableRow {
           if e.name.as_str() == "TableColumn" {
             let v = TableColumn::parser(e)?;
             columns.push(v);
+          } else {
+            return Err(Error::unexpected_tag(element, &e.name));
           }
         }
       }
-- 
2.43.0


From 13bb316afa881a1ab5250e8cb7f8a95be4ebd45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 32/50] fix: accept the xs:boolean values 1 and 0

---
 src/article.rs           | 24 +++++++++----------
 src/class.rs             |  4 ++--
 src/law.rs               |  2 +-
 src/lib.rs               | 13 +++++++++++
 src/paragraph.rs         | 50 ++++++++++++++++++++--------------------
 src/remarks.rs           |  2 +-
 src/suppl_provision.rs   |  2 +-
 src/table_of_contents.rs | 12 +++++-----
 8 files changed, 61 insertions(+), 48 deletions(-)

diff --git a/src/article.rs b/src/article.rs
index baec35f..f4efeb9 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -48,8 +48,8 @@ impl Parser for Part {
     if element.name.as_str() == "Part" {
       let num_str = get_attribute(element, "Num")?;
       let num = ArticleNumber::from_num_str(&num_str)?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
         .next()
@@ -166,8 +166,8 @@ impl Parser for Chapter {
     if element.name.as_str() == "Chapter" {
       let num_str = get_attribute(element, "Num")?;
       let num = ArticleNumber::from_num_str(&num_str)?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
         .next()
@@ -284,8 +284,8 @@ impl Parser for Section {
     if element.name.as_str() == "Section" {
       let num_str = get_attribute(element, "Num")?;
       let num = ArticleNumber::from_num_str(&num_str)?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
         .next()
@@ -410,8 +410,8 @@ impl Parser for Subsection {
     if element.name.as_str() == "Subsection" {
       let num_str = get_attribute(element, "Num")?;
       let num = ArticleNumber::from_num_str(&num_str)?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
         .next()
@@ -530,8 +530,8 @@ impl Parser for Division {
     if element.name.as_str() == "Division" {
       let num_str = get_attribute(element, "Num")?;
       let num = ArticleNumber::from_num_str(&num_str)?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
       let title_element = children
         .next()
@@ -639,8 +639,8 @@ impl Parser for Article {
     if element.name.as_str() == "Article" {
       let num_str = get_attribute(element, "Num")?;
       let num = ArticleNumber::from_num_str(&num_str)?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter().peekable();
       let mut caption = None;
       let mut title = Text::new();
diff --git a/src/class.rs b/src/class.rs
index cf7a79a..24490e5 100644
--- a/src/class.rs
+++ b/src/class.rs
@@ -169,7 +169,7 @@ impl Caption {
 impl Parser for Caption {
   fn parser(element: &Element) -> Result<Self> {
     let text = text::Text::from_children(&element.children);
-    let common_caption = get_attribute_opt_with_parse::<bool>(element, "CommonCaption")?;
+    let common_caption = get_bool_attribute_opt(element, "CommonCaption")?;
     Ok(Caption::new(text, common_caption))
   }
 }
@@ -198,7 +198,7 @@ impl Parser for Column {
   fn parser(element: &Element) -> Result<Self> {
     if element.name.as_str() == "Column" {
       let num = get_attribute_opt_with_parse(element, "Num")?;
-      let line_break = get_attribute_opt_with_parse(element, "LineBreak")?.unwrap_or(false);
+      let line_break = get_bool_attribute_opt(element, "LineBreak")?.unwrap_or(false);
       let align = Align::from_attribute(element.attributes.get("Align"));
       let mut sentence = Vec::new();
       for node in element.children.iter() {
diff --git a/src/law.rs b/src/law.rs
index 4d5c4e6..2a7bbec 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -568,7 +568,7 @@ pub struct MainProvision {
 impl Parser for MainProvision {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "MainProvision" {
-      let extract = get_attribute_opt_with_parse(element, "Extract")?;
+      let extract = get_bool_attribute_opt(element, "Extract")?;
       let mut children = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
diff --git a/src/lib.rs b/src/lib.rs
index e6b8b72..3ea1f16 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -234,3 +234,16 @@ where
     None => Ok(None),
   }
 }
+
+/// `xs:boolean`型の属性を取得する
+pub(crate) fn get_bool_attribute_opt(element: &Element, name: &str) -> Result<Option<bool>> {
+  match element.attributes.get(name).map(|s| s.as_str()) {
+    Some("true" | "1") => Ok(Some(true)),
+    Some("false" | "0") => Ok(Some(false)),
+    Some(_) => Err(Error::AttributeParseError {
+      tag_name: element.name.to_string(),
+      attribute_name: name.to_string(),
+    }),
+    None => Ok(None),
+  }
+}
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 2df825d..fca8e91 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -33,9 +33,9 @@ impl Parser for Paragraph {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Paragraph" {
       let num = ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?)?;
-      let old_style = get_attribute_opt_with_parse(element, "OldStyle")?.unwrap_or(false);
-      let old_num = get_attribute_opt_with_parse(element, "OldNum")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let old_style = get_bool_attribute_opt(element, "OldStyle")?.unwrap_or(false);
+      let old_num = get_bool_attribute_opt(element, "OldNum")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut caption = None;
       let mut paragraph_num = Text::new();
       let mut sentence = Vec::new();
@@ -198,8 +198,8 @@ impl Parser for Item {
     if element.name.as_str() == "Item" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -342,8 +342,8 @@ impl Parser for Subitem1 {
     if element.name.as_str() == "Subitem1" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -486,8 +486,8 @@ impl Parser for Subitem2 {
     if element.name.as_str() == "Subitem2" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -630,8 +630,8 @@ impl Parser for Subitem3 {
     if element.name.as_str() == "Subitem3" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -774,8 +774,8 @@ impl Parser for Subitem4 {
     if element.name.as_str() == "Subitem4" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -918,8 +918,8 @@ impl Parser for Subitem5 {
     if element.name.as_str() == "Subitem5" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -1062,8 +1062,8 @@ impl Parser for Subitem6 {
     if element.name.as_str() == "Subitem6" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -1206,8 +1206,8 @@ impl Parser for Subitem7 {
     if element.name.as_str() == "Subitem7" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -1350,8 +1350,8 @@ impl Parser for Subitem8 {
     if element.name.as_str() == "Subitem8" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -1494,8 +1494,8 @@ impl Parser for Subitem9 {
     if element.name.as_str() == "Subitem9" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
@@ -1635,8 +1635,8 @@ impl Parser for Subitem10 {
     if element.name.as_str() == "Subitem10" {
       let num =
         ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
-      let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
+      let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut title = None;
       let mut sentence_opt = None;
       let mut struct_list = Vec::new();
diff --git a/src/remarks.rs b/src/remarks.rs
index 3ce447c..c35af56 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -81,7 +81,7 @@ pub struct RemarksLabel {
 impl Parser for RemarksLabel {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "RemarksLabel" {
-      let line_break = get_attribute_opt_with_parse(element, "LineBreak")?.unwrap_or(false);
+      let line_break = get_bool_attribute_opt(element, "LineBreak")?.unwrap_or(false);
       let text = Text::from_children(&element.children);
       Ok(RemarksLabel { text, line_break })
     } else {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 0aee779..657ead2 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -37,7 +37,7 @@ impl Parser for SupplProvision {
         }
       };
       let amend_law_num = element.attributes.get("AmendLawNum").cloned();
-      let extract = get_attribute_opt_with_parse(element, "Extract")?;
+      let extract = get_bool_attribute_opt(element, "Extract")?;
       let mut label = Text::new();
       let mut children = Vec::new();
       for node in element.children.iter() {
diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 31fe5e7..c4ac879 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -147,7 +147,7 @@ impl Parser for TOCPart {
       let mut article_range = None;
       let mut children = Vec::new();
       let num = get_attribute_with_parse(element, "Num")?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
@@ -223,7 +223,7 @@ impl Parser for TOCChapter {
       let mut article_range = None;
       let mut children = Vec::new();
       let num = get_attribute_with_parse(element, "Num")?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
@@ -299,7 +299,7 @@ impl Parser for TOCSection {
       let mut article_range = None;
       let mut children = Vec::new();
       let num = get_attribute_with_parse(element, "Num")?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
@@ -393,7 +393,7 @@ impl Parser for TOCSubsection {
       let mut article_range = None;
       let mut children = Vec::new();
       let num = get_attribute_with_parse(element, "Num")?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
@@ -468,7 +468,7 @@ impl Parser for TOCDivision {
       let mut title = Text::new();
       let mut article_range = None;
       let num = get_attribute_with_parse(element, "Num")?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
@@ -535,7 +535,7 @@ impl Parser for TOCArticle {
       let mut title = Text::new();
       let mut caption = None;
       let num = get_attribute_with_parse(element, "Num")?;
-      let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
+      let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
-- 
2.43.0


From b94ad756e8a9c2cd59a82c999c388e4159963bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:48 +0000
Subject: [PATCH 33/50] fix: reject heading and paragraph labels followed by
 other text

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 8458e98..2851047 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -222,9 +222,9 @@ fn parse_paragraph_eda_numbers(str: &str) -> Option<Vec<usize>> {
 }
 
 pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
-  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*))まで)?").unwrap();
+  let re_article = Regex::new(r"^(第)?((?<arabic_num>[0-9]+)|(?<zenkaku_num>[０-９]+)|(?<kansuji>[一二三四五六七八九十百千]+))(?<suffix>(編|章|節|款|目|条|項|号))(?<eda_str>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*)(から(第((?<arabic_num_2>[0-9]+)|(?<zenkaku_num_2>[０-９]+)|(?<kansuji_2>[一二三四五六七八九十百千]+))(?<suffix_2>(編|章|節|款|目|条|項|号))(?<eda_str_2>((の|ノ)([0-9]+|[０-９]+|[一二三四五六七八九十百千]+))*))まで)?$").unwrap();
   let re_paragraph = Regex::new(
-    r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?",
+    r"^(?<num>([０-９]+|[0-9]+))(?<eda_str>((の|ノ)([０-９]+|[0-9]+))*)(から(?<num_2>([０-９]+|[0-9]+))(?<eda_str_2>((の|ノ)([０-９]+|[0-9]+))*)まで)?$",
   )
   .unwrap();
   if let Some(caps) = re_article.captures(str) {
-- 
2.43.0


From c27df5d8c2a114634a70214cf1bff648cc20d3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:35 +0000
Subject: [PATCH 34/50] fix: print nothing while structuring text

---
 src/parse_from_text.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index af25bc6..89377dc 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -945,7 +945,6 @@ fn parse_line_contents(line: &str) -> LineContents {
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
   } else if let Some((s, text)) = split_number(line) {
-    println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
         Part(article_number, text)
@@ -965,7 +964,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else if let Some(item_number) = article_number::parse_item_number(&s) {
       Item(item_number, text)
     } else {
-      println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
   } else if let Some(caps) = re_suppl_provision.captures(line) {
-- 
2.43.0


From c3372958147866d72bd343504e9a7d7a0ea71dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:35 +0000
Subject: [PATCH 35/50] fix: split a line into label and text only at white
 space

---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 2851047..2e5e7e6 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -500,7 +500,7 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
 }
 
 pub fn split_number(str: &str) -> Option<(String, String)> {
-  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]*(?<text>.+)$").unwrap();
+  let re = Regex::new(r"^(?<s>[^\s　]+)[\s　]+(?<text>.+)$").unwrap();
   re.captures(str).map(|caps| {
     let s = &caps["s"];
     let text = &caps["text"];
-- 
2.43.0


From 8b58972d28f8e6f73d88c912d8aecb5b13621ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 36/50] fix: recognise supplementary provisions and keep each
 of them

---
 src/parse_from_text.rs | 73 +++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 43 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 89377dc..12d46ac 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -747,9 +747,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut preamble_text_list: Vec<String> = Vec::new();
   let mut is_preamble = true;
   let mut main_provision_children = Vec::new();
-  let mut suppl_provision = Vec::new();
-  let mut suppl_provision_children = Vec::new();
-  let mut suppl_provision_law_num_opt: Option<Option<String>> = None;
+  let mut suppl_provision: Vec<suppl_provision::SupplProvision> = Vec::new();
 
   let mut caption_opt = None;
   let mut lines = lines.iter().peekable();
@@ -766,10 +764,12 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       LineContents::Chapter(n, text) => {
         lines.next();
         let chap = parse_chapter(n, text, &mut lines);
-        if suppl_provision_law_num_opt.is_some() {
-          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Chapter(
-            chap,
-          ))
+        if let Some(suppl) = suppl_provision.last_mut() {
+          suppl
+            .children
+            .push(suppl_provision::SupplProvisionChildrenElement::Chapter(
+              chap,
+            ))
         } else {
           main_provision_children.push(law::MainProvisionContents::Chapter(chap));
         }
@@ -791,10 +791,12 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       LineContents::Article(n, text) => {
         lines.next();
         let article = parse_article(caption_opt, n, text, &mut lines);
-        if suppl_provision_law_num_opt.is_some() {
-          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Article(
-            article,
-          ))
+        if let Some(suppl) = suppl_provision.last_mut() {
+          suppl
+            .children
+            .push(suppl_provision::SupplProvisionChildrenElement::Article(
+              article,
+            ))
         } else {
           main_provision_children.push(law::MainProvisionContents::Article(article));
         }
@@ -807,20 +809,17 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
           lines.next();
         }
       }
-      LineContents::SupplProvision(law_num) => {
-        if let Some(amend_law_num) = suppl_provision_law_num_opt {
-          if !suppl_provision_children.is_empty() {
-            suppl_provision.push(suppl_provision::SupplProvision {
-              label: text::Text::from_value("附則"),
-              children: suppl_provision_children,
-              suppl_provision_type: None,
-              amend_law_num,
-              extract: None,
-            })
-          }
-        }
-        suppl_provision_law_num_opt = Some(law_num.clone());
-        suppl_provision_children = Vec::new();
+      LineContents::SupplProvision(law_num, extract) => {
+        lines.next();
+        suppl_provision.push(suppl_provision::SupplProvision {
+          label: text::Text::from_value("附則"),
+          children: Vec::new(),
+          suppl_provision_type: None,
+          amend_law_num: law_num.clone(),
+          extract: extract.then_some(true),
+        });
+        caption_opt = None;
+        is_preamble = false;
       }
       _ => break,
     }
@@ -863,18 +862,6 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
     extract: None,
   };
 
-  if let Some(amend_law_num) = suppl_provision_law_num_opt {
-    if !suppl_provision_children.is_empty() {
-      suppl_provision.push(suppl_provision::SupplProvision {
-        label: text::Text::from_value("附則"),
-        children: suppl_provision_children,
-        suppl_provision_type: None,
-        amend_law_num,
-        extract: None,
-      })
-    }
-  }
-
   let law_title = law::LawTitle {
     kana: None,
     abbrev: None,
@@ -930,8 +917,8 @@ enum LineContents {
   /// - <https://elaws.e-gov.go.jp/document?lawid=403M50000400049#Mp-At_9>
   /// - <https://note.com/lawyer_alpaca/n/ne09c189e813b#Gcaq9>
   Item(article_number::ItemNumber, String),
-  /// 附則：附則（昭和三一年四月二日法律第六三号）
-  SupplProvision(Option<String>),
+  /// 附則：附則（昭和三一年四月二日法律第六三号）　抄
+  SupplProvision(Option<String>, bool),
   /// その他テキスト
   Text(String),
 }
@@ -941,9 +928,12 @@ fn parse_line_contents(line: &str) -> LineContents {
   let line = line.trim();
   let re_caption = Regex::new("^（(?<caption>[^）]+)）$").unwrap();
   let re_suppl_provision =
-    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?[^（）]*$").unwrap();
+    Regex::new(r"^附[　\s]*則[　\s]*(（(?<law_num>.+)）)?[　\s]*(?<extract>抄)?$").unwrap();
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
+  } else if let Some(caps) = re_suppl_provision.captures(line) {
+    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
+    SupplProvision(law_num, caps.name("extract").is_some())
   } else if let Some((s, text)) = split_number(line) {
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
@@ -966,9 +956,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else {
       Text(line.to_string())
     }
-  } else if let Some(caps) = re_suppl_provision.captures(line) {
-    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-    SupplProvision(law_num)
   } else {
     Text(line.to_string())
   }
-- 
2.43.0


From 3b920ab08a6fc7f3c445a734bc84ac259d897fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 37/50] fix: skip blank lines when structuring text

---
 src/parse_from_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 12d46ac..2712e99 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -740,7 +740,7 @@ fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
 
 pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut lines = Vec::new();
-  for line in text.lines().map(|s| s.trim()) {
+  for line in text.lines().map(|s| s.trim()).filter(|s| !s.is_empty()) {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
-- 
2.43.0


From 77f29881d2b412557afe87e13dbdd5365be5edb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:06 +0000
Subject: [PATCH 38/50] fix: structure divisions directly below sections

---
 src/parse_from_text.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 2712e99..db92ac6 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -115,6 +115,12 @@ fn parse_section(
         children.push(article::SectionContents::Subsection(subsec));
         caption_opt = None;
       }
+      Some(LineContents::Division(n, title)) => {
+        lines.next();
+        let div = parse_division(n, title, lines);
+        children.push(article::SectionContents::Division(div));
+        caption_opt = None;
+      }
       _ => break,
     }
   }
-- 
2.43.0


From b842b9e6ee6d138ce8881d1e5e36be54caa4da68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:43 +0000
Subject: [PATCH 39/50] fix: nest items below every enclosing label style and
 stop at labels that cannot be placed

---
 src/parse_from_text.rs | 111 +++++++++++++++++++++++------------------
 1 file changed, 62 insertions(+), 49 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index db92ac6..f122d59 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -255,7 +255,11 @@ fn parse_paragraph(
     .collect::<Vec<_>>();
 
   let mut children = Vec::new();
+  let mut item_pattern = None;
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
+    if *item_pattern.get_or_insert(item_number.pattern) != item_number.pattern {
+      break;
+    }
     lines.next();
     let mut sentence_text = vec![text];
     while let Some(LineContents::Text(s)) = lines.peek() {
@@ -265,7 +269,7 @@ fn parse_paragraph(
     let mut subitem1 = Vec::new();
     if let Some(LineContents::Item(item_number_sub1, _)) = lines.peek() {
       if item_number_sub1.pattern != item_number.pattern {
-        subitem1 = parse_subitem1(item_number.pattern, item_number_sub1.pattern, lines);
+        subitem1 = parse_subitem1(&[item_number.pattern], item_number_sub1.pattern, lines);
       }
     }
     let item = paragraph::Item {
@@ -302,13 +306,13 @@ fn parse_paragraph(
 }
 
 fn parse_subitem1(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem1> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -319,8 +323,9 @@ fn parse_subitem1(
       }
       let mut subitem2 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem2 = parse_subitem2(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem2 = parse_subitem2(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem1 {
@@ -339,20 +344,20 @@ fn parse_subitem1(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem2(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem2> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -363,8 +368,9 @@ fn parse_subitem2(
       }
       let mut subitem3 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem3 = parse_subitem3(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem3 = parse_subitem3(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem2 {
@@ -383,20 +389,20 @@ fn parse_subitem2(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem3(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem3> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -407,8 +413,9 @@ fn parse_subitem3(
       }
       let mut subitem4 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem4 = parse_subitem4(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem4 = parse_subitem4(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem3 {
@@ -427,20 +434,20 @@ fn parse_subitem3(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem4(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem4> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -451,8 +458,9 @@ fn parse_subitem4(
       }
       let mut subitem5 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem5 = parse_subitem5(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem5 = parse_subitem5(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem4 {
@@ -471,20 +479,20 @@ fn parse_subitem4(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem5(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem5> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -495,8 +503,9 @@ fn parse_subitem5(
       }
       let mut subitem6 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem6 = parse_subitem6(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem6 = parse_subitem6(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem5 {
@@ -515,20 +524,20 @@ fn parse_subitem5(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem6(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem6> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -539,8 +548,9 @@ fn parse_subitem6(
       }
       let mut subitem7 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem7 = parse_subitem7(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem7 = parse_subitem7(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem6 {
@@ -559,20 +569,20 @@ fn parse_subitem6(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem7(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem7> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -583,8 +593,9 @@ fn parse_subitem7(
       }
       let mut subitem8 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem8 = parse_subitem8(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem8 = parse_subitem8(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem7 {
@@ -603,20 +614,20 @@ fn parse_subitem7(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem8(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem8> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -627,8 +638,9 @@ fn parse_subitem8(
       }
       let mut subitem9 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem9 = parse_subitem9(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem9 = parse_subitem9(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem8 {
@@ -647,20 +659,20 @@ fn parse_subitem8(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem9(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem9> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -671,8 +683,9 @@ fn parse_subitem9(
       }
       let mut subitem10 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem10 = parse_subitem10(now_pat, item_number.pattern, lines);
+        let patterns = [parent_patterns, &[now_pat]].concat();
+        if !patterns.contains(&item_number.pattern) {
+          subitem10 = parse_subitem10(&patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem9 {
@@ -691,20 +704,20 @@ fn parse_subitem9(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
 }
 
 fn parse_subitem10(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem10> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -728,7 +741,7 @@ fn parse_subitem10(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
-- 
2.43.0


From ca208d2c5b38f982b028999b860cb94e95eeb5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:30 +0000
Subject: [PATCH 40/50] fix: place or report every line of the text instead of
 stopping or looping forever

---
 src/parse_from_text.rs | 54 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index f122d59..aece23f 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -757,6 +757,11 @@ fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
   }
 }
 
+/// 構造のどこにも置けない行があったときのエラー
+fn unplaceable_line(line_contents: &LineContents) -> Error {
+  Error::ParsingError("LawBody".to_string(), format!("{line_contents:?}"))
+}
+
 pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut lines = Vec::new();
   for line in text.lines().map(|s| s.trim()).filter(|s| !s.is_empty()) {
@@ -773,7 +778,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
 
   while let Some(line_contents) = lines.peek() {
     match line_contents {
-      LineContents::Part(n, text) => {
+      LineContents::Part(n, text) if suppl_provision.is_empty() => {
         lines.next();
         let part = parse_part(n, text, &mut lines);
         main_provision_children.push(law::MainProvisionContents::Part(part));
@@ -795,7 +800,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      LineContents::Section(n, text) => {
+      LineContents::Section(n, text) if suppl_provision.is_empty() => {
         lines.next();
         let sec = parse_section(n, text, &mut lines);
         main_provision_children.push(law::MainProvisionContents::Section(sec));
@@ -826,6 +831,20 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         if is_preamble {
           preamble_text_list.push(s.to_string());
           lines.next();
+        } else if let Some(suppl) = suppl_provision
+          .last_mut()
+          .filter(|suppl| suppl.children.is_empty())
+        {
+          // 項番号のない第一項
+          lines.next();
+          let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), s, &mut lines);
+          suppl
+            .children
+            .push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+              para,
+            ))
+        } else {
+          return Err(unplaceable_line(line_contents));
         }
       }
       LineContents::SupplProvision(law_num, extract) => {
@@ -840,7 +859,36 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
-      _ => break,
+      LineContents::Paragraph(n, text) => {
+        // 項のみからなる本則や附則
+        let placeable = if let Some(suppl) = suppl_provision.last() {
+          matches!(
+            suppl.children.last(),
+            None | Some(suppl_provision::SupplProvisionChildrenElement::Paragraph(_))
+          )
+        } else {
+          matches!(
+            main_provision_children.last(),
+            None | Some(law::MainProvisionContents::Paragraph(_))
+          )
+        };
+        if !placeable {
+          return Err(unplaceable_line(line_contents));
+        }
+        lines.next();
+        let para = parse_paragraph(n, text, &mut lines);
+        if let Some(suppl) = suppl_provision.last_mut() {
+          suppl
+            .children
+            .push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+              para,
+            ))
+        } else {
+          main_provision_children.push(law::MainProvisionContents::Paragraph(para));
+        }
+        is_preamble = false;
+      }
+      _ => return Err(unplaceable_line(line_contents)),
     }
   }
 
-- 
2.43.0


From b87ab7577978554f8a8e958882fa7223c8450203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:01 +0000
Subject: [PATCH 41/50] fix: give captions to the article or paragraph they
 precede or report them

---
 src/parse_from_text.rs | 120 ++++++++++++++++++++++++-----------------
 1 file changed, 72 insertions(+), 48 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index aece23f..62840b0 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -4,20 +4,28 @@ use crate::*;
 use article_number::ItemPattern;
 use regex::Regex;
 
-fn parse_part(
-  n: &ArticleNumber,
-  title: &str,
-  lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
-) -> article::Part {
+type Lines<'a> = std::iter::Peekable<std::slice::Iter<'a, LineContents>>;
+
+/// 次の行の見出しが条の見出しかどうか
+fn is_article_next(lines: &Lines) -> bool {
+  matches!(lines.clone().nth(1), Some(LineContents::Article(_, _)))
+}
+
+/// 次の行の見出しが項の見出しかどうか
+fn is_paragraph_next(lines: &Lines) -> bool {
+  matches!(lines.clone().nth(1), Some(LineContents::Paragraph(_, _)))
+}
+
+fn parse_part(n: &ArticleNumber, title: &str, lines: &mut Lines) -> article::Part {
   let part_title = text::Text::from_value(title);
   let delete = title.trim() == "削除" || title.trim() == "（削除）";
   let hide = false;
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_next(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -45,20 +53,16 @@ fn parse_part(
   }
 }
 
-fn parse_chapter(
-  n: &ArticleNumber,
-  title: &str,
-  lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
-) -> article::Chapter {
+fn parse_chapter(n: &ArticleNumber, title: &str, lines: &mut Lines) -> article::Chapter {
   let chapter_title = text::Text::from_value(title);
   let delete = title.trim() == "削除" || title.trim() == "（削除）";
   let hide = false;
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_next(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -86,20 +90,16 @@ fn parse_chapter(
   }
 }
 
-fn parse_section(
-  n: &ArticleNumber,
-  title: &str,
-  lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
-) -> article::Section {
+fn parse_section(n: &ArticleNumber, title: &str, lines: &mut Lines) -> article::Section {
   let section_title = text::Text::from_value(title);
   let delete = title.trim() == "削除" || title.trim() == "（削除）";
   let hide = false;
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_next(lines) => {
         lines.next();
         caption_opt = Some(cap);
       }
@@ -133,20 +133,16 @@ fn parse_section(
   }
 }
 
-fn parse_subsection(
-  n: &ArticleNumber,
-  title: &str,
-  lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
-) -> article::Subsection {
+fn parse_subsection(n: &ArticleNumber, title: &str, lines: &mut Lines) -> article::Subsection {
   let subsection_title = text::Text::from_value(title);
   let delete = title.trim() == "削除" || title.trim() == "（削除）";
   let hide = false;
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_next(lines) => {
         caption_opt = Some(cap);
         lines.next();
       }
@@ -174,20 +170,16 @@ fn parse_subsection(
   }
 }
 
-fn parse_division(
-  n: &ArticleNumber,
-  title: &str,
-  lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
-) -> article::Division {
+fn parse_division(n: &ArticleNumber, title: &str, lines: &mut Lines) -> article::Division {
   let division_title = text::Text::from_value(title);
   let delete = title.trim() == "削除" || title.trim() == "（削除）";
   let hide = false;
   let mut children = Vec::new();
   let mut caption_opt = None;
   loop {
-    let next = lines.peek();
+    let next = lines.peek().copied();
     match next {
-      Some(LineContents::Caption(cap)) => {
+      Some(LineContents::Caption(cap)) if is_article_next(lines) => {
         caption_opt = Some(cap);
         lines.next();
       }
@@ -215,16 +207,28 @@ fn parse_article(
   text: &str,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> article::Article {
-  let caption = caption_opt.map(|s| class::Caption {
-    text: text::Text::from_value(s),
-    common_caption: None,
-  });
-  let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), text, lines);
+  let caption = caption_opt.map(text_to_caption);
+  let para = parse_paragraph(
+    None,
+    &ArticleNumber::from_num_str("1").unwrap(),
+    text,
+    lines,
+  );
   let mut paragraph = vec![para];
-  while let Some(LineContents::Paragraph(n, text)) = lines.peek() {
-    lines.next();
-    let para = parse_paragraph(n, text, lines);
-    paragraph.push(para)
+  let mut caption_opt = None;
+  loop {
+    match lines.peek().copied() {
+      Some(LineContents::Caption(cap)) if is_paragraph_next(lines) => {
+        lines.next();
+        caption_opt = Some(cap);
+      }
+      Some(LineContents::Paragraph(n, text)) => {
+        lines.next();
+        let para = parse_paragraph(caption_opt.take(), n, text, lines);
+        paragraph.push(para)
+      }
+      _ => break,
+    }
   }
   let article = article::Article {
     caption,
@@ -239,6 +243,7 @@ fn parse_article(
 }
 
 fn parse_paragraph(
+  caption_opt: Option<&String>,
   n: &ArticleNumber,
   text: &str,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
@@ -291,7 +296,7 @@ fn parse_paragraph(
   }
 
   paragraph::Paragraph {
-    caption: None,
+    caption: caption_opt.map(text_to_caption),
     paragraph_num: text::Text::new(), // TODO 謎
     amend_provision: Vec::new(),
     class: Vec::new(),
@@ -747,6 +752,13 @@ fn parse_subitem10(
   v
 }
 
+fn text_to_caption(text: &String) -> class::Caption {
+  class::Caption {
+    text: text::Text::from_value(text),
+    common_caption: None,
+  }
+}
+
 fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
   sentence::Sentence {
     contents: vec![sentence::SentenceElement::String(text.to_string())],
@@ -776,7 +788,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut caption_opt = None;
   let mut lines = lines.iter().peekable();
 
-  while let Some(line_contents) = lines.peek() {
+  while let Some(line_contents) = lines.peek().copied() {
     match line_contents {
       LineContents::Part(n, text) if suppl_provision.is_empty() => {
         lines.next();
@@ -808,6 +820,13 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         is_preamble = false;
       }
       LineContents::Caption(cap) => {
+        let is_first_of_suppl_provision = suppl_provision
+          .last()
+          .is_some_and(|suppl| suppl.children.is_empty())
+          && matches!(lines.clone().nth(1), Some(LineContents::Text(_)));
+        if !(is_article_next(&lines) || is_paragraph_next(&lines) || is_first_of_suppl_provision) {
+          return Err(unplaceable_line(line_contents));
+        }
         caption_opt = Some(cap);
         is_preamble = false;
         lines.next();
@@ -837,7 +856,12 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         {
           // 項番号のない第一項
           lines.next();
-          let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), s, &mut lines);
+          let para = parse_paragraph(
+            caption_opt.take(),
+            &ArticleNumber::from_num_str("1").unwrap(),
+            s,
+            &mut lines,
+          );
           suppl
             .children
             .push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
@@ -876,7 +900,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
           return Err(unplaceable_line(line_contents));
         }
         lines.next();
-        let para = parse_paragraph(n, text, &mut lines);
+        let para = parse_paragraph(caption_opt.take(), n, text, &mut lines);
         if let Some(suppl) = suppl_provision.last_mut() {
           suppl
             .children
-- 
2.43.0


From 4333108e27ba3c4627f71c00db75ecb88baa8b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:16 +0000
Subject: [PATCH 42/50] fix: report dates that do not exist or precede the eras
 instead of panicking

---
 src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ea1f16..95ee823 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -103,13 +103,14 @@ pub fn parse_text(
   law_num: String,
   title: &str,
 ) -> Result<law::Law> {
+  let date_error = || Error::ParsingError("Date".to_string(), format!("{year}-{month:?}-{day:?}"));
   let date = Date::from_ymd(
-    year as i32,
-    month.unwrap_or(1) as u32,
-    day.unwrap_or(1) as u32,
+    i32::try_from(year).map_err(|_| date_error())?,
+    u32::try_from(month.unwrap_or(1)).map_err(|_| date_error())?,
+    u32::try_from(day.unwrap_or(1)).map_err(|_| date_error())?,
   )
-  .unwrap();
-  let e = era(&date).unwrap();
+  .map_err(|_| date_error())?;
+  let e = era(&date).ok_or_else(date_error)?;
   let era = match e.name().as_str() {
     "明治" => law::Era::Meiji,
     "大正" => law::Era::Taisho,
-- 
2.43.0


From 07be975d36befc50fe38a16b7d4a1cd0409c6904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:19 +0000
Subject: [PATCH 43/50] fix: give the year of structured laws within its era

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 95ee823..6068873 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -122,7 +122,7 @@ pub fn parse_text(
   let body = parse_from_text::parse_body(title, text)?;
   Ok(law::Law {
     era,
-    year,
+    year: e.year() as usize,
     num,
     promulgate_month: month,
     promulgate_day: day,
-- 
2.43.0


From 81163c05bf2151db0efc49253a68ba1ddd367a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:44 +0000
Subject: [PATCH 44/50] fix: continue alphabetic items with the letters that
 are also Roman numerals

---
 src/parse_from_text.rs | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 62840b0..7796430 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -769,6 +769,47 @@ fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
   }
 }
 
+/// 「ｃ」のようにローマ数字ともアルファベットとも読める番号について、直前の「ｂ」に続くものをアルファベットに読み直す
+///
+/// ローマ数字として1であるものと、ローマ数字の列に続くものは読み直さない。
+fn reread_roman_items(lines: &mut [LineContents]) {
+  // これまでに現れた番号のうち、それぞれの種類で最後のもの
+  let mut last_numbers: Vec<(ItemPattern, usize)> = Vec::new();
+  for line in lines.iter_mut() {
+    match line {
+      LineContents::Item(item, _) => {
+        let alphabet_pattern = match item.pattern {
+          ItemPattern::NoParenZenkakuRomanUpper => Some(ItemPattern::NoParenZenkakuUpper),
+          ItemPattern::NoParenZenkakuRomanLower => Some(ItemPattern::NoParenZenkakuLower),
+          ItemPattern::ParenZenkakuRomanUpper => Some(ItemPattern::ParenZenkakuUpper),
+          ItemPattern::ParenZenkakuRomanLower => Some(ItemPattern::ParenZenkakuLower),
+          _ => None,
+        };
+        let letters = item
+          .str
+          .chars()
+          .filter(|c| *c != '（' && *c != '）')
+          .collect::<Vec<_>>();
+        if let (Some(alphabet_pattern), [c]) = (alphabet_pattern, letters.as_slice()) {
+          let first = if c.is_lowercase() { 'ａ' } else { 'Ａ' };
+          let n = *c as usize - first as usize + 1;
+          if item.base_number != 1
+            && !last_numbers.contains(&(item.pattern, item.base_number - 1))
+            && last_numbers.contains(&(alphabet_pattern, n - 1))
+          {
+            item.pattern = alphabet_pattern;
+            item.base_number = n;
+          }
+        }
+        last_numbers.retain(|(pattern, _)| *pattern != item.pattern);
+        last_numbers.push((item.pattern, item.base_number));
+      }
+      LineContents::Text(_) => (),
+      _ => last_numbers.clear(),
+    }
+  }
+}
+
 /// 構造のどこにも置けない行があったときのエラー
 fn unplaceable_line(line_contents: &LineContents) -> Error {
   Error::ParsingError("LawBody".to_string(), format!("{line_contents:?}"))
@@ -780,6 +821,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
+  reread_roman_items(&mut lines);
   let mut preamble_text_list: Vec<String> = Vec::new();
   let mut is_preamble = true;
   let mut main_provision_children = Vec::new();
-- 
2.43.0


From 81b51fd24e41a8f3b3ec8aa6344b1ebf6d78d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:14 +0000
Subject: [PATCH 45/50] fix: read a Line without Style as the schema's default,
 solid

---
 src/line.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 0191e5c..ea58106 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -18,12 +18,13 @@ pub struct Line {
 impl Parser for Line {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Line" {
-      let style = LineStyle::from_attribute(element.attributes.get("Style")).ok_or(
-        Error::AttributeParseError {
+      let style = match element.attributes.get("Style") {
+        None => LineStyle::Solid,
+        style => LineStyle::from_attribute(style).ok_or(Error::AttributeParseError {
           tag_name: "Line".to_string(),
           attribute_name: "Style".to_string(),
-        },
-      )?;
+        })?,
+      };
       let mut contents = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-- 
2.43.0


From 47e182713a9f77c9eaef7fd14d6a3411ad3a6d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 46/50] fix: reject elements after LawBody instead of ignoring
 them

---
 src/law.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/law.rs b/src/law.rs
index 2a7bbec..2ca5890 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -162,6 +162,11 @@ impl Parser for Law {
         })
         .ok_or(Error::missing_required_tag("LawBody"))?;
       let law_body = LawBody::parser(law_body_element)?;
+      for node in children {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, &e.name));
+        }
+      }
       Ok(Law {
         era,
         year,
-- 
2.43.0


From feeebc238f058b1de0cedba4e99ea22491f6b1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:07 +0000
Subject: [PATCH 47/50] fix: name the attribute when a number in it is
 malformed

---
 src/article.rs   | 18 ++++++------------
 src/law.rs       | 37 +++++++------------------------------
 src/paragraph.rs |  2 +-
 3 files changed, 14 insertions(+), 43 deletions(-)

diff --git a/src/article.rs b/src/article.rs
index f4efeb9..0126836 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -46,8 +46,7 @@ impl Part {
 impl Parser for Part {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Part" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -164,8 +163,7 @@ impl Chapter {
 impl Parser for Chapter {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Chapter" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -282,8 +280,7 @@ impl Section {
 impl Parser for Section {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Section" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -408,8 +405,7 @@ impl Subsection {
 impl Parser for Subsection {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subsection" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -528,8 +524,7 @@ impl Division {
 impl Parser for Division {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Division" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter();
@@ -637,8 +632,7 @@ impl Article {
 impl Parser for Article {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Article" {
-      let num_str = get_attribute(element, "Num")?;
-      let num = ArticleNumber::from_num_str(&num_str)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter().peekable();
diff --git a/src/law.rs b/src/law.rs
index 2ca5890..051505a 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -1,7 +1,5 @@
 //! 法律本体
 
-use std::str::FromStr;
-
 use crate::appdx::*;
 use crate::article::*;
 use crate::article_number::ArticleNumber;
@@ -65,36 +63,15 @@ impl Parser for Law {
       let num = if num_str.is_empty() {
         None
       } else {
-        Some(ArticleNumber::from_str(&num_str)?)
+        Some(get_attribute_with_parse(element, "Num")?)
       };
-      let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
-        if s.is_empty() {
-          None
-        } else {
-          Some(s)
-        }
-      });
-      let promulgate_month = if let Some(s) = promulgate_month_str {
-        Some(
-          s.parse::<usize>()
-            .map_err(|_| Error::ParsingError("usize".to_string(), s.clone()))?,
-        )
-      } else {
-        None
+      let promulgate_month = match element.attributes.get("PromulgateMonth") {
+        Some(s) if !s.is_empty() => Some(get_attribute_with_parse(element, "PromulgateMonth")?),
+        _ => None,
       };
-
-      let promulgate_day_str =
-        element
-          .attributes
-          .get("PromulgateDay")
-          .and_then(|s| if s.is_empty() { None } else { Some(s) });
-      let promulgate_day = if let Some(s) = promulgate_day_str {
-        Some(
-          s.parse::<usize>()
-            .map_err(|_| Error::ParsingError("usize".to_string(), s.clone()))?,
-        )
-      } else {
-        None
+      let promulgate_day = match element.attributes.get("PromulgateDay") {
+        Some(s) if !s.is_empty() => Some(get_attribute_with_parse(element, "PromulgateDay")?),
+        _ => None,
       };
       let law_type = match element.attributes.get("LawType").map(|s| s.as_str()) {
         Some("Constitution") => LawType::Constitution,
diff --git a/src/paragraph.rs b/src/paragraph.rs
index fca8e91..396a5ce 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -32,7 +32,7 @@ pub struct Paragraph {
 impl Parser for Paragraph {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Paragraph" {
-      let num = ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?)?;
+      let num = get_attribute_with_parse(element, "Num")?;
       let old_style = get_bool_attribute_opt(element, "OldStyle")?.unwrap_or(false);
       let old_num = get_bool_attribute_opt(element, "OldNum")?.unwrap_or(false);
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
-- 
2.43.0


From bb073597a27fffbec1537f846418bd83feaa1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:08 +0000
Subject: [PATCH 48/50] fix: report missing titles, article titles, paragraph
 numbers and paragraph sentences

---
 src/article.rs           |  5 +++--
 src/paragraph.rs         | 11 ++++++-----
 src/table_of_contents.rs | 42 ++++++++++++++++++++--------------------
 3 files changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/article.rs b/src/article.rs
index 0126836..e4c6ca4 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -637,7 +637,7 @@ impl Parser for Article {
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut children = element.children.iter().peekable();
       let mut caption = None;
-      let mut title = Text::new();
+      let mut title = None;
       loop {
         if let Some(XMLNode::Element(e)) = children.peek() {
           let tag_name = e.name.as_str();
@@ -655,7 +655,7 @@ impl Parser for Article {
               caption = Some(v);
             }
             "ArticleTitle" => {
-              title = Text::from_children(&e.children);
+              title = Some(Text::from_children(&e.children));
             }
             s => return Err(Error::unexpected_tag(element, s)),
           }
@@ -676,6 +676,7 @@ impl Parser for Article {
           }
         }
       }
+      let title = title.ok_or(Error::missing_required_tag("ArticleTitle"))?;
       Ok(Article::new(
         title, num, delete, hide, caption, paragraph, suppl_note,
       ))
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 396a5ce..44ea271 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -37,8 +37,8 @@ impl Parser for Paragraph {
       let old_num = get_bool_attribute_opt(element, "OldNum")?.unwrap_or(false);
       let hide = get_bool_attribute_opt(element, "Hide")?.unwrap_or(false);
       let mut caption = None;
-      let mut paragraph_num = Text::new();
-      let mut sentence = Vec::new();
+      let mut paragraph_num = None;
+      let mut sentence_opt = None;
       let mut amend_provision = Vec::new();
       let mut class = Vec::new();
       let mut struct_list = Vec::new();
@@ -51,9 +51,10 @@ impl Parser for Paragraph {
               caption = Some(v);
             }
             "ParagraphNum" => {
-              paragraph_num = Text::from_children(&e.children);
+              paragraph_num = Some(Text::from_children(&e.children));
             }
             "ParagraphSentence" => {
+              let sentence = sentence_opt.get_or_insert_with(Vec::new);
               for node in e.children.iter() {
                 if let XMLNode::Element(e) = node {
                   let v = Sentence::parser(e)?;
@@ -95,10 +96,10 @@ impl Parser for Paragraph {
       }
       Ok(Paragraph {
         caption,
-        paragraph_num,
+        paragraph_num: paragraph_num.ok_or(Error::missing_required_tag("ParagraphNum"))?,
         amend_provision,
         class,
-        sentence,
+        sentence: sentence_opt.ok_or(Error::missing_required_tag("ParagraphSentence"))?,
         struct_list,
         children,
         num,
diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index c4ac879..b8432ad 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -143,7 +143,7 @@ pub struct TOCPart {
 impl Parser for TOCPart {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "TOCPart" {
-      let mut title = Text::new();
+      let mut title = None;
       let mut article_range = None;
       let mut children = Vec::new();
       let num = get_attribute_with_parse(element, "Num")?;
@@ -152,7 +152,7 @@ impl Parser for TOCPart {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "PartTitle" => {
-              title = Text::from_children(&e.children);
+              title = Some(Text::from_children(&e.children));
             }
             "ArticleRange" => {
               article_range = Some(Text::from_children(&e.children));
@@ -166,7 +166,7 @@ impl Parser for TOCPart {
         }
       }
       Ok(TOCPart {
-        part_title: title,
+        part_title: title.ok_or(Error::missing_required_tag("PartTitle"))?,
         article_range,
         num,
         delete,
@@ -219,7 +219,7 @@ pub struct TOCChapter {
 impl Parser for TOCChapter {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "TOCChapter" {
-      let mut title = Text::new();
+      let mut title = None;
       let mut article_range = None;
       let mut children = Vec::new();
       let num = get_attribute_with_parse(element, "Num")?;
@@ -228,7 +228,7 @@ impl Parser for TOCChapter {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ChapterTitle" => {
-              title = Text::from_children(&e.children);
+              title = Some(Text::from_children(&e.children));
             }
             "ArticleRange" => {
               article_range = Some(Text::from_children(&e.children));
@@ -242,7 +242,7 @@ impl Parser for TOCChapter {
         }
       }
       Ok(TOCChapter {
-        chapter_title: title,
+        chapter_title: title.ok_or(Error::missing_required_tag("ChapterTitle"))?,
         article_range,
         num,
         delete,
@@ -295,7 +295,7 @@ pub struct TOCSection {
 impl Parser for TOCSection {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "TOCSection" {
-      let mut title = Text::new();
+      let mut title = None;
       let mut article_range = None;
       let mut children = Vec::new();
       let num = get_attribute_with_parse(element, "Num")?;
@@ -304,7 +304,7 @@ impl Parser for TOCSection {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SectionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Some(Text::from_children(&e.children));
             }
             "ArticleRange" => {
               article_range = Some(Text::from_children(&e.children));
@@ -322,7 +322,7 @@ impl Parser for TOCSection {
         }
       }
       Ok(TOCSection {
-        section_title: title,
+        section_title: title.ok_or(Error::missing_required_tag("SectionTitle"))?,
         article_range,
         num,
         delete,
@@ -389,7 +389,7 @@ pub struct TOCSubsection {
 impl Parser for TOCSubsection {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "TOCSubsection" {
-      let mut title = Text::new();
+      let mut title = None;
       let mut article_range = None;
       let mut children = Vec::new();
       let num = get_attribute_with_parse(element, "Num")?;
@@ -398,7 +398,7 @@ impl Parser for TOCSubsection {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SubsectionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Some(Text::from_children(&e.children));
             }
             "ArticleRange" => {
               article_range = Some(Text::from_children(&e.children));
@@ -412,7 +412,7 @@ impl Parser for TOCSubsection {
         }
       }
       Ok(TOCSubsection {
-        subsection_title: title,
+        subsection_title: title.ok_or(Error::missing_required_tag("SubsectionTitle"))?,
         article_range,
         num,
         delete,
@@ -465,7 +465,7 @@ pub struct TOCDivision {
 impl Parser for TOCDivision {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "TOCDivision" {
-      let mut title = Text::new();
+      let mut title = None;
       let mut article_range = None;
       let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
@@ -473,7 +473,7 @@ impl Parser for TOCDivision {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "DivisionTitle" => {
-              title = Text::from_children(&e.children);
+              title = Some(Text::from_children(&e.children));
             }
             "ArticleRange" => {
               article_range = Some(Text::from_children(&e.children));
@@ -483,7 +483,7 @@ impl Parser for TOCDivision {
         }
       }
       Ok(TOCDivision {
-        division_title: title,
+        division_title: title.ok_or(Error::missing_required_tag("DivisionTitle"))?,
         article_range,
         num,
         delete,
@@ -532,7 +532,7 @@ pub struct TOCArticle {
 impl Parser for TOCArticle {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "TOCArticle" {
-      let mut title = Text::new();
+      let mut title = None;
       let mut caption = None;
       let num = get_attribute_with_parse(element, "Num")?;
       let delete = get_bool_attribute_opt(element, "Delete")?.unwrap_or(false);
@@ -540,7 +540,7 @@ impl Parser for TOCArticle {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "ArticleTitle" => {
-              title = Text::from_children(&e.children);
+              title = Some(Text::from_children(&e.children));
             }
             "ArticleCaption" => {
               let v = Caption::parser(e)?;
@@ -552,7 +552,7 @@ impl Parser for TOCArticle {
       }
       if let Some(caption) = caption {
         Ok(TOCArticle {
-          article_title: title,
+          article_title: title.ok_or(Error::missing_required_tag("ArticleTitle"))?,
           article_caption: caption,
           num,
           delete,
@@ -602,14 +602,14 @@ pub struct TOCSupplProvision {
 impl Parser for TOCSupplProvision {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name == "TOCSupplProvision" {
-      let mut label = Text::new();
+      let mut label = None;
       let mut range = None;
       let mut children = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
           match e.name.as_str() {
             "SupplProvisionLabel" => {
-              label = Text::from_children(&e.children);
+              label = Some(Text::from_children(&e.children));
             }
             "ArticleRange" => {
               range = Some(Text::from_children(&e.children));
@@ -627,7 +627,7 @@ impl Parser for TOCSupplProvision {
         }
       }
       Ok(TOCSupplProvision {
-        suppl_provision_label: label,
+        suppl_provision_label: label.ok_or(Error::missing_required_tag("SupplProvisionLabel"))?,
         article_range: range,
         children,
       })
-- 
2.43.0


From 480a7004048f1501414312340eb11e3c9008210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:50 +0000
Subject: [PATCH 49/50] fix: name the element found in place of a list sentence

---
 src/list.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/list.rs b/src/list.rs
index 944700b..2a28bad 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -53,7 +53,10 @@ impl Parser for List {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "ListSentence"));
+        return Err(match list_sentence {
+          Some(XMLNode::Element(e)) => Error::wrong_tag_name(e, "ListSentence"),
+          _ => Error::missing_required_tag("ListSentence"),
+        });
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -136,7 +139,10 @@ impl Parser for Sublist1 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist1Sentence"));
+        return Err(match list_sentence {
+          Some(XMLNode::Element(e)) => Error::wrong_tag_name(e, "Sublist1Sentence"),
+          _ => Error::missing_required_tag("Sublist1Sentence"),
+        });
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -213,7 +219,10 @@ impl Parser for Sublist2 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist2Sentence"));
+        return Err(match list_sentence {
+          Some(XMLNode::Element(e)) => Error::wrong_tag_name(e, "Sublist2Sentence"),
+          _ => Error::missing_required_tag("Sublist2Sentence"),
+        });
       }
       let mut sublist = Vec::new();
       for node in children {
@@ -289,7 +298,10 @@ impl Parser for Sublist3 {
           }
         }
       } else {
-        return Err(Error::wrong_tag_name(element, "Sublist3Sentence"));
+        return Err(match list_sentence {
+          Some(XMLNode::Element(e)) => Error::wrong_tag_name(e, "Sublist3Sentence"),
+          _ => Error::missing_required_tag("Sublist3Sentence"),
+        });
       }
       Ok(Sublist3::new(sentence))
     } else {
-- 
2.43.0


From 4da3a447a305d137c839e73ce419baba41ca7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:52 +0000
Subject: [PATCH 50/50] fix: reject elements where Fig, Sublist3 and
 AmendProvisionSentence allow none

---
 src/fig.rs  | 7 ++++++-
 src/law.rs  | 7 +++++++
 src/list.rs | 5 +++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/fig.rs b/src/fig.rs
index 2e70b33..9e94b42 100644
--- a/src/fig.rs
+++ b/src/fig.rs
@@ -4,7 +4,7 @@ use crate::parser::*;
 use crate::to_xml::*;
 use crate::*;
 use serde::{Deserialize, Serialize};
-use xmltree::Element;
+use xmltree::{Element, XMLNode};
 
 #[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq, Eq)]
 pub struct Fig {
@@ -21,6 +21,11 @@ impl Parser for Fig {
         attribute_name: "src".to_string(),
       })?
       .clone();
+    for node in element.children.iter() {
+      if let XMLNode::Element(e) = node {
+        return Err(result::Error::unexpected_tag(element, &e.name));
+      }
+    }
     Ok(Fig { src })
   }
 }
diff --git a/src/law.rs b/src/law.rs
index 051505a..779364e 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -650,6 +650,13 @@ impl Parser for AmendProvision {
                 })
                 .ok_or(Error::missing_required_tag("AmendProvision"))?;
               let v = Sentence::parser(n)?;
+              for node in e.children.iter() {
+                if let XMLNode::Element(child) = node {
+                  if child.name != "Sentence" {
+                    return Err(Error::unexpected_tag(e, &child.name));
+                  }
+                }
+              }
               sentence = Some(v)
             }
             "NewProvision" => {
diff --git a/src/list.rs b/src/list.rs
index 2a28bad..2c20dad 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -303,6 +303,11 @@ impl Parser for Sublist3 {
           _ => Error::missing_required_tag("Sublist3Sentence"),
         });
       }
+      for node in children {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, &e.name));
+        }
+      }
       Ok(Sublist3::new(sentence))
     } else {
       Err(Error::wrong_tag_name(element, "Sublist3"))
-- 
2.43.0

