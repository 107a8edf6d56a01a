From 7160789f87810ec6ce09303292b13476b904342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:09 +0000
Subject: [PATCH 01/40] fix: read narsese text by characters so that non-ASCII
 names do not panic the parser

---
 src/NarseseParser.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f14a838..f52ae0c 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -22,11 +22,9 @@ use crate::TermApi::*;
 pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   *tv = Tv{f:1.0,c:0.9}; // set TV to default
   
-  if narsese.len() > 0 && narsese.chars().nth(narsese.len()-1).unwrap() == '}' {
-    for revIdx in 1..narsese.len() { // scan for '{'
-      let idx = narsese.len() - revIdx; // compute index from back
-      
-      if narsese.chars().nth(idx).unwrap() == '{' {
+  if narsese.ends_with('}') {
+    match narsese.rfind('{') { // scan for '{'
+      Some(idx) if idx > 0 => {
         let tvStr = &narsese[idx+1..narsese.len()-1];
         let splitted:Vec<&str> = tvStr.split(" ").collect();
         
@@ -36,10 +34,9 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
           let c = splitted[1].parse::<f64>().unwrap();
           *narsese = narsese[..idx].to_string(); // cut away
           *tv = Tv{f:f,c:c};
-          return;
         }
-        return;
-      }
+      },
+      _ => {},
     }
   }
 }
@@ -73,8 +70,8 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
     return None; // can't parse empty string!
   }
   
-  let punctationChar = narsese2.chars().nth(narsese2.len()-1).unwrap();
-  let narseseInner = narsese2[..narsese2.len()-1].to_string();
+  let punctationChar = narsese2.chars().last().unwrap();
+  let narseseInner = narsese2[..narsese2.len()-punctationChar.len_utf8()].to_string();
   
   let punctation = match punctationChar {
     '.' => {EnumPunctation::JUGEMENT},
-- 
2.43.0


From 524f3b0c9fc4ef28f3e1788fdd9b795829ee40e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:11 +0000
Subject: [PATCH 02/40] fix: reject sentences with malformed or out of range
 truth values instead of panicking or storing them

---
 src/NarseseParser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index f52ae0c..a54bf70 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -29,11 +29,13 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
         let splitted:Vec<&str> = tvStr.split(" ").collect();
         
         if splitted.len() == 2 { // must have two values
-          // TODO< handle error better >
-          let f = splitted[0].parse::<f64>().unwrap();
-          let c = splitted[1].parse::<f64>().unwrap();
-          *narsese = narsese[..idx].to_string(); // cut away
-          *tv = Tv{f:f,c:c};
+          match (splitted[0].parse::<f64>(), splitted[1].parse::<f64>()) {
+            (Ok(f), Ok(c)) if f >= 0.0 && f <= 1.0 && c >= 0.0 && c < 1.0 => {
+              *narsese = narsese[..idx].to_string(); // cut away
+              *tv = Tv{f:f,c:c};
+            },
+            _ => {}, // not a valid TV, it stays in the text and the sentence gets rejected because it doesn't end with a punctation
+          }
         }
       },
       _ => {},
-- 
2.43.0


From 529777809493fd03124b6c83cc95959ced3ff01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:13 +0000
Subject: [PATCH 03/40] fix: reject narsese with text left over after the term
 instead of silently dropping it

---
 src/NarseseParser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index a54bf70..74a3579 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -89,10 +89,10 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
   let parsed:IResult<&str, Term> = parseEntry(&narseseInner);
 
   match parsed {
-    Ok((_str2, term)) => {
+    Ok((rest, term)) if rest.trim().is_empty() => { // the whole text must belong to the term
       Some((term, tv, punctation, isEvent))
     },
-    Err(_) => {
+    _ => {
       None
     }
   }
-- 
2.43.0


From bac0109896b431a6a4442604448f45555b16ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:05 +0000
Subject: [PATCH 04/40] fix: parse compound terms in linear time and bound the
 nesting, deep nesting hung or crashed the parser

---
 src/NarseseParser.rs | 163 +++++++++++++++++++++----------------------
 1 file changed, 80 insertions(+), 83 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 74a3579..85fffe1 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -43,6 +43,33 @@ pub fn parseNarseseRetTv(narsese:&mut String, tv:&mut Tv) {
   }
 }
 
+/// maximal nesting of a term which is accepted by the parser
+const NESTING_MAX:i64 = 256;
+
+/// computes how deep the brackets are nested
+fn calcNesting(narsese:&str) -> i64 {
+  let mut text = narsese.to_string();
+  for iCopula in &[" --> ", " <-> ", " ==> ", " =/> ", " <=> "] { // the signs of copulas aren't brackets
+    text = text.replace(iCopula, " ");
+  }
+
+  let mut nesting:i64 = 0;
+  let mut nestingMax:i64 = 0;
+  for iChar in text.chars() {
+    match iChar {
+      '(' | '{' | '[' | '<' => {
+        nesting += 1;
+        nestingMax = nestingMax.max(nesting);
+      },
+      ')' | '}' | ']' | '>' => {
+        nesting = (nesting-1).max(0);
+      },
+      _ => {},
+    }
+  }
+  nestingMax
+}
+
 pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)> {
   let mut narsese2:String = narsese.clone();
 
@@ -86,6 +113,10 @@ pub fn parseNarsese(narsese:&String) -> Option<(Term, Tv, EnumPunctation, bool)>
   //println!("f = {}", tv.f);
   //println!("c = {}", tv.c);
 
+  if calcNesting(&narseseInner) > NESTING_MAX {
+    return None; // the parser is recursive, so to deep nesting would overflow the stack
+  }
+
   let parsed:IResult<&str, Term> = parseEntry(&narseseInner);
 
   match parsed {
@@ -533,40 +564,48 @@ fn indepVar(input:&str) -> IResult<&str, Term> {
   Ok((input, Term::IndepVar(name.to_string())))
 }
 
-// /param enStatement enable parsing of statement
-fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
-  {
-    let res0 = a(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
+/// returns the first connector between the components of the compound in parentheses and how often it occurs
+fn retConnector(input: &str) -> Option<(&'static str, usize)> {
+  let mut nesting:i64 = 0;
+  let mut connector:Option<&'static str> = None;
+  let mut count:usize = 0;
+  let mut idx:usize = 0;
+  for (iIdx, iChar) in input.char_indices() {
+    if iIdx < idx {
+      continue; // is already part of connector
     }
-  }
-
-  {
-    let res0 = parseSeq(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
+    match iChar {
+      '(' | '{' | '[' => {nesting += 1;},
+      ')' | '}' | ']' => {
+        nesting -= 1;
+        if nesting == 0 {
+          break;
+        }
       },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseIntInt2(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
+      _ if nesting == 1 => {
+        for iConnector in &["&&", "&", "|", ",", "*", " /1 ", " /2 "] {
+          if input[iIdx..].starts_with(iConnector) {
+            if connector.is_none() {
+              connector = Some(iConnector);
+            }
+            if connector == Some(iConnector) {
+              count += 1;
+            }
+            idx = iIdx + iConnector.len();
+            break;
+          }
+        }
       },
-      Err(_) => {}, // try other choice
+      _ => {},
     }
   }
+  connector.map(|v| (v, count))
+}
 
+// /param enStatement enable parsing of statement
+fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
   {
-    let res0 = parseExtInt2(input);
+    let res0 = a(input);
     match res0 {
       Ok(term) => {
         return Ok(term.clone())
@@ -595,62 +634,20 @@ fn parseSubjOrPred(input: &str, _enStatement:bool) -> IResult<&str, Term> {
     }
   }
 
-  {
-    let res0 = parseProd(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseImg0(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseImg1(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-
-  {
-    let res0 = parseConj2(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  {
-    let res0 = parseConj3(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
-  }
-  {
-    let res0 = parseConj4(input);
-    match res0 {
-      Ok(term) => {
-        return Ok(term.clone())
-      },
-      Err(_) => {}, // try other choice
-    }
+  // decide by the connector, because trying all alternatives parses the content multiple times, which takes exponential time for nested terms
+  if input.starts_with("(") {
+    return match retConnector(input) {
+      Some((",", _)) => parseSeq(input),
+      Some(("|", _)) => parseIntInt2(input),
+      Some(("&", _)) => parseExtInt2(input),
+      Some(("*", _)) => parseProd(input),
+      Some((" /1 ", _)) => parseImg0(input),
+      Some((" /2 ", _)) => parseImg1(input),
+      Some(("&&", 1)) => parseConj2(input),
+      Some(("&&", 2)) => parseConj3(input),
+      Some(("&&", _)) => parseConj4(input),
+      _ => b(input), // fails
+    };
   }
 
   {
-- 
2.43.0


From 94ede02f318ae535b527d3f96d625a9adfc3939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:20 +0000
Subject: [PATCH 05/40] fix: names with non-ASCII letters swallowed the
 following characters

---
 src/NarseseParser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/NarseseParser.rs b/src/NarseseParser.rs
index 85fffe1..84a30e1 100644
--- a/src/NarseseParser.rs
+++ b/src/NarseseParser.rs
@@ -1,8 +1,8 @@
 
 use nom::{
   IResult,
-  bytes::complete::{tag, take_while_m_n},
-  combinator::map_res,
+  bytes::complete::{tag, take_while1},
+  combinator::{map_res, verify},
   //Err,
 //  sequence::tuple,
 //  take_while,
@@ -519,8 +519,9 @@ fn isValidSign(c: char) -> bool {
 }
 
 fn alpha2(input: &str) -> IResult<&str, &str> {
+  // take_while_m_n() mixes up bytes and characters for non-ASCII text
   map_res(
-    take_while_m_n(1, 512, isValidSign),
+    verify(take_while1(isValidSign), |v:&str| v.chars().count() <= 512),
     ok1
   )(input)
 }
-- 
2.43.0


From 2bd5849ca1a563a2bf9f9ad03c03d6daa8b8101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:29 +0000
Subject: [PATCH 06/40] fix: count occurences of a term inside the relation of
 an image too

---
 src/Term.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Term.rs b/src/Term.rs
index 61b0cf1..69e1f51 100644
--- a/src/Term.rs
+++ b/src/Term.rs
@@ -600,8 +600,8 @@ pub fn count_occurence_subterms(t: &Term, searched: &Term) -> i64 {
             }
             n
         },
-        Term::Img(rela,idxa,elementsa) => {
-            let mut n = 0;
+        Term::Img(rela,_idxa,elementsa) => {
+            let mut n = count_occurence_subterms(rela, searched);
             for idx in 0..elementsa.len() {
                 n += count_occurence_subterms(&elementsa[idx], searched);
             }
-- 
2.43.0


From f5b5fd509fa9875619c89d38eade7e88401fd9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:54 +0000
Subject: [PATCH 07/40] fix: pass the truth values of the premises in swapped
 order when the premises are swapped

---
 src/NarWorkingCycle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 0088f03..38fe696 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -741,7 +741,7 @@ pub fn infBinary(a: &Term, aPunct:EnumPunctation, aTv:&Option<Tv>, b: &Term, bPu
     let mut res = vec![];
     *wereRulesApplied = false; // because no rules were applied yet
     res.extend(infBinaryInner(&a, aPunct, &aTv, &b, bPunct, &bTv, wereRulesApplied).iter().cloned());
-    res.extend(infBinaryInner(&b, bPunct, &aTv, &a, aPunct, &bTv, wereRulesApplied).iter().cloned());
+    res.extend(infBinaryInner(&b, bPunct, &bTv, &a, aPunct, &aTv, wereRulesApplied).iter().cloned());
     res
 }
 
-- 
2.43.0


From 01b6474b7de415c3c1854cf90e9e66d20df223c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:49 +0000
Subject: [PATCH 08/40] fix: build the first image only from products with two
 components

---
 src/NarWorkingCycle.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 38fe696..c44c06c 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -138,11 +138,13 @@ pub fn infStructProd0(a: &Term, punct:EnumPunctation, aTv: &Option<Tv>) -> Optio
         Term::Stmt(Copula::INH, prod, pred) => {
             match &**prod {
                 Term::Prod(arr) => {
-                    let prod0 = &arr[0];
-                    let prod1 = &arr[1];
+                    if arr.len() == 2 {
+                        let prod0 = &arr[0];
+                        let prod1 = &arr[1];
 
-                    let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
-                    return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                        let concl = Term::Stmt(Copula::INH, Box::clone(&prod0), Box::new(Term::Img(Box::clone(pred), 0, vec![Box::clone(&prod1)])));
+                        return Some((concl,aTv.as_ref().unwrap().clone(),EnumPunctation::JUGEMENT, 0.8));
+                    }
                 },
                 _ => {}
             }
-- 
2.43.0


From 3912b6f9c42c2a52d5a75df3ef41203ade37ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:27 +0000
Subject: [PATCH 09/40] fix: accept eternal questions, they were dropped as
 unsupported and never answered

---
 src/Nar.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 3c761a7..8d0507d 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -96,8 +96,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
 
     if isTemporal {
         if punct == EnumPunctation::QUESTION { // temporal Q&A
-            // quesion was already added
-            //memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
+            memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
         else if punct == EnumPunctation::JUGEMENT {
             // add to temporal knowledge
@@ -114,12 +113,9 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         if punct == EnumPunctation::GOAL {
             println!("ERR : eternal goals are not supported!");
         }
-        else if punct == EnumPunctation::JUGEMENT {
+        else { // judgement or question
             memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
-        else {
-            println!("ERR : form is not supported!");
-        }
     }
 }
 
-- 
2.43.0


From 318f8fa3f1861952969c2d8b14f40b2339f9b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:07 +0000
Subject: [PATCH 10/40] fix: introducing a variable panicked at random because
 the table of digits had no 3

---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index c3e861f..cc7d768 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -218,7 +218,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
 fn create_random_varname(rng: &mut rand::rngs::ThreadRng) -> Term {
     let mut name: String = "Q".to_string();
     for _i in 0..24 {
-        let v = "012456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
+        let v = "0123456789ABCDEF".chars().nth(rng.gen_range(0..16)).unwrap();
         name += &v.to_string();
     }
     Term::IndepVar(name)
-- 
2.43.0


From 7158c9018fdfb4372dcaf725369a12abbe01fb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:09 +0000
Subject: [PATCH 11/40] fix: observing events panicked the storage worker when
 a temporal belief without known interval was told by the user

---
 src/NarProc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 41d6db7..50b845c 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -403,7 +403,7 @@ pub fn narInit() -> ProcNar {
                         
                         if !checkOverlap(&iEE.stamp, &evidenceSentence.stamp) { // evidence must no overlap!
                             if
-                                iEE.expDt.unwrap() >= evidenceSentence.expDt.unwrap() && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
+                                iEE.expDt.unwrap_or(0) >= evidenceSentence.expDt.unwrap_or(0) && // check for greater because we want to count evidence for longer intervals too, because longer ones are "included"
                                 
                                 // does impl seq match?
                                 checkEqTerm(&iEE.term, &evidenceSentence.term)
-- 
2.43.0


From 16acf9437bee7bb5736c3bf192ec71e4a347315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:11 +0000
Subject: [PATCH 12/40] fix: deciding panicked when the sequence which leads to
 a goal doesn't end with a operation

---
 src/NarProc.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/NarProc.rs b/src/NarProc.rs
index 50b845c..c44ff47 100644
--- a/src/NarProc.rs
+++ b/src/NarProc.rs
@@ -17,7 +17,6 @@ use crate::NarGoalSystem;
 use crate::NarMem;
 use crate::Tv;
 use crate::NarInfProcedural;
-use crate::Utils::{enforce};
 use crate::NarWorkingCycle::Mem2;
 
 /// contains all necessary variables of a procedural NAR
@@ -827,15 +826,13 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
             Some(bestEntry3) => {
                 if bestEntry3.exp > nar.cfgDescnThreshold {
                     match bestEntry3.evidence {
-                        Some(evidence) => {
+                        Some(evidence) if is_seqAndLastOp(&bestEntry3.unifiedSeq) => { // we can only act if the last element of the sequence is a op
                             
                             let pickedEvidence: Arc<RwLock<Sentence>> = Arc::clone(&evidence);
                             
                             println!("DBG7 {}", convTermToStr(&bestEntry3.unifiedSeq));
 
                             // extract op of seq
-                            enforce(is_seq(&bestEntry3.unifiedSeq)); // must be sequence
-                            enforce(is_seqAndLastOp(&bestEntry3.unifiedSeq)); // last must be op!
                             let opTerm:Term = retSeqLast(&bestEntry3.unifiedSeq);
                             
                             
@@ -857,7 +854,7 @@ pub fn narStep1(nar:&mut ProcNar, declMem:&Option<Arc<RwLock<Mem2>>>) {
                                 NarGoalSystem::addEntry(&mut nar.goalSystem, &declMem.as_ref().unwrap().read(), nar.t, Arc::new(sentence), Some(pickedEvidence), 0); 
                             }
                         },
-                        None => {}
+                        _ => {}
                     }
                 }
             },
-- 
2.43.0


From ede4b6918dc7246b4f5fdd36786d3117424a9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:30 +0000
Subject: [PATCH 13/40] fix: reject temporal implications whose antecedent is
 not a sequence instead of panicking

---
 src/Nar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nar.rs b/src/Nar.rs
index 8d0507d..e61d6ff 100644
--- a/src/Nar.rs
+++ b/src/Nar.rs
@@ -98,7 +98,7 @@ pub fn inputT2(nar:&mut Nar, term:&Term, punct:EnumPunctation, tv:&Tv, isEvent:b
         if punct == EnumPunctation::QUESTION { // temporal Q&A
             memAddTask(Arc::clone(&nar.mem.read().shared), &sentence, true, nar.cfg__maxComplexity, nar.cfg__nConceptBeliefs, 1.0, nar.procNar.t);
         }
-        else if punct == EnumPunctation::JUGEMENT {
+        else if punct == EnumPunctation::JUGEMENT && NarProc::is_seq(&NarProc::retSubj(term)) { // only sequences are supported as antecedent
             // add to temporal knowledge
             sentence.evi = Some(Evidence::CNT{pos:10,cnt:10}); // we need to transcribe TV
                                                             // TODO< transcribe TV in a better way, we need to approximate freq and conf! >
-- 
2.43.0


From 48711ad5fd5a942dd840bb32c3021d50906b97c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:32 +0000
Subject: [PATCH 14/40] fix: goals of ops were counted twice when the goals are
 limited, other goals were forgotten below the limit

---
 src/NarGoalSystem.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index c377a02..25fcbd0 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -439,10 +439,6 @@ fn checkSetContains(set: &Vec< Arc<RwLock<Entry>> >, s: &Sentence) -> bool {
 pub fn limitMemory(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, t: i64) {
     let mut arr:Vec<Arc<RwLock<Entry>>> = retEntries(&goalSystem.read()); // working array with all entries
     
-    for iv in &goalSystem.read().activeSet.set {
-        arr.push(Arc::clone(&iv));
-    }
-
     dbg(&format!("nEntries={}", arr.len()));
 
     // * recalc utility
-- 
2.43.0


From 801157411a196025ff1eec849d0e325aeea0e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:34 +0000
Subject: [PATCH 15/40] fix: goals of all but the first group were never or too
 rarely sampled because the selection was not relative to the group

---
 src/NarGoalSystem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 25fcbd0..36fb4d9 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -553,7 +553,7 @@ pub fn sample(goalSystem: &GoalSystem, rng: &mut rand::rngs::ThreadRng) -> Optio
         if des2+sum > selPriority { // is the range of the selection inside this "group"?
 
             use crate::BinSearch::binSearch;
-            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority);
+            let selEntry3: Arc<RwLock<Entry>> = binSearch(&iv.entries, selPriority-sum); // relative to begin of this group
             let selEntry2 = selEntry3.read();
             selEntry = Some((Arc::clone(&selEntry2.sentence), selEntry2.depth));
             break;
-- 
2.43.0


From 3ca05a6ec16c1c991179380a0cf76e2fa0f42f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:35 +0000
Subject: [PATCH 16/40] fix: accumulated desirability of a goal was not reset
 when the goals are regrouped, which skewed the sampling

---
 src/NarGoalSystem.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 36fb4d9..d48b71e 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -279,6 +279,8 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         }
     
         { // case to add it as a new group
+            e.write().accDesirability = 0.0; // is the first in its group, may be set if it was in another group before
+
             chosenBatch.groups.push(EntryFoldedByTerm {
                     term:(*(e.read().sentence.term)).clone(),
                     entries:vec![Arc::clone(&e)],
-- 
2.43.0


From 645f23b4d203a280b269f56cdf91a4e07212ce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:57 +0000
Subject: [PATCH 17/40] fix: the same goal was stored again and again because
 only the first goal of a group was indexed by term

---
 src/NarGoalSystem.rs | 31 ++++++-------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index d48b71e..69d6a54 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -266,6 +266,12 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
         // * so we have to find the group with the same term if the group exists and add it there or
         // * add it as a new group
         
+        { // index by term
+            let mut goalSystemGuard = goalSystem.write();
+            let term:Term = (*(e.read().sentence.term)).clone();
+            goalSystemGuard.entriesByTerm.entry(term).or_insert_with(|| RwLock::new(vec![])).write().push(Arc::clone(&e));
+        }
+
         { // try to search for group by e.sentence.term
             for iGroup in &mut chosenBatch.groups { // iterate over groups by term
                 if checkEqTerm(&iGroup.term, &e.read().sentence.term) { // found entry?
@@ -286,31 +292,6 @@ fn addEntry2(goalSystem: &Arc<RwLock<GoalSystem>>, mem2: &Mem2, e: Arc<RwLock<En
                     entries:vec![Arc::clone(&e)],
                 }
             );
-
-            match goalSystem.write().entriesByTerm.get_mut(&e.read().sentence.term) {
-                Some(arr) => {
-                    
-                    let mut exists = false;
-                    for iItem in arr.read().iter() {
-                        let borrowedItem = iItem.read();
-                        if checkEqTerm(&borrowedItem.sentence.term, &e.read().sentence.term) && 
-                           NarStamp::checkOverlap(&borrowedItem.sentence.stamp, &e.read().sentence.stamp) {
-                            exists = true;
-                            break; // OPT
-                        }
-                    }
-                    
-                    if !exists {
-                        arr.write().push(Arc::clone(&e));
-                    }
-                    return;
-                },
-                None => {} // by term doesn't exist - fall through
-            }
-
-            // by term doesn't exist
-            // * insert new item if we are here
-            goalSystem.write().entriesByTerm.insert((*(e.read().sentence.term)).clone(), RwLock::new(vec![Arc::clone(&e)])); // add to memory
         }
 	}
 }
-- 
2.43.0


From 3a9813240a8306c727686a779b10e955ecd6a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:59 +0000
Subject: [PATCH 18/40] fix: lines which start with non-ASCII characters
 panicked the input facade

---
 src/NarInputFacade.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index 5807805..b9e94c5 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -25,11 +25,11 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     trimNewline(&mut input);
 
     // TODO< trim comment by // away   >
-    if input.len() >= 2 && &input[..2] == "//" { // is commented line?
+    if input.starts_with("//") { // is commented line?
         // ignore
     }
     
-    else if input.len() >= 3 && &input[..3] == "!sp" { // step procedural
+    else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
         //    // TODO< check if it was parsed fine! >
@@ -45,7 +45,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!spB" { // step procedural B
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input.len() >= 2 && &input[..2] == "!s" {
+    else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
             // TODO< check if it was parsed fine! >
@@ -58,7 +58,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input == "!dtf" { // delcarative tasks flush
         flushTasks(&*nar.mem.read());
     }
-    else if input.len() >= 5 && &input[..5] == "!por " { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
+    else if input.starts_with("!por ") { // procedural op register --- register op, argument is type/name of op, 2nd argument is name of op
         let args:Vec<&str> = input[5..].split_whitespace().collect();
         if args.len() == 1 {
             let argOpType:String = args[0].to_string();
@@ -95,7 +95,7 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         nar.procNar.cfgEnBabbling = true;
     }
 
-    else if input.len() > 6 && &input[..6] == "!.nlp " {
+    else if input.len() > 6 && input.starts_with("!.nlp ") {
         let natural = &input[6..].to_string();
         NarModuleNlp3::process(nar, &natural);
     }
-- 
2.43.0


From 7ec8002ef82c38006cbaa518198d2df45ed798db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:00 +0000
Subject: [PATCH 19/40] fix: the commands !spA and !spB did a full procedural
 step instead of half of it

---
 src/NarInputFacade.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index b9e94c5..aa033b1 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -29,6 +29,12 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         // ignore
     }
     
+    else if input == "!spA" { // step procedural A
+        NarProc::narStep0(&mut nar.procNar);
+    }
+    else if input == "!spB" { // step procedural B
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
+    }
     else if input.starts_with("!sp") { // step procedural
         //let mut nCycles = 1;
         //if input.len() > 5 && false { // parse number of cycles
@@ -39,12 +45,6 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
         NarProc::narStep0(&mut nar.procNar);
         NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
     }
-    else if input == "!spA" { // step procedural A
-        NarProc::narStep0(&mut nar.procNar);
-    }
-    else if input == "!spB" { // step procedural B
-        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
-    }
     else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-- 
2.43.0


From be23b0f31d429dcf1deaeae44833ef9317915083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:02 +0000
Subject: [PATCH 20/40] fix: a malformed number of cycles panicked the input
 facade

---
 src/NarInputFacade.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/NarInputFacade.rs b/src/NarInputFacade.rs
index aa033b1..8a16672 100644
--- a/src/NarInputFacade.rs
+++ b/src/NarInputFacade.rs
@@ -48,8 +48,13 @@ pub fn input(nar:&mut Nar, line: &String, quit: &mut bool) -> Vec<String> {
     else if input.starts_with("!s") {
         let mut nCycles = 1;
         if input.len() > 2 { // parse number of cycles
-            // TODO< check if it was parsed fine! >
-            nCycles = input[2..].parse::<i64>().unwrap();
+            match input[2..].trim().parse::<i64>() {
+                Ok(n) => {nCycles = n;},
+                Err(_) => {
+                    println!("ERR - couldn't parse number of cycles!");
+                    return retInfo;
+                }
+            }
         }
         for _i in 0..nCycles {
             cycle(nar);
-- 
2.43.0


From c7a7c3af351b9478b2fd529aa3b84642975daec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:03 +0000
Subject: [PATCH 21/40] fix: debugging the tasks could deadlock with the
 derivation worker

---
 src/NarWorkingCycle.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index c44c06c..3dbe9e2 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1983,7 +1983,8 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
     
     // debug credit of tasks
     {
-        for iTask in &mem.shared.read().judgementTasks {
+        let sharedGuard = mem.shared.read(); // lock just once, locking again inside the loop can deadlock with a waiting writer
+        for iTask in &sharedGuard.judgementTasks {
             let taskSentenceAsStr = convSentenceTermPunctToStr(&iTask.read().sentence, true);
             
             let mut taskAsStr = taskSentenceAsStr.clone();
@@ -1993,7 +1994,7 @@ pub fn debugCreditsOfTasks(mem: &Mem2) -> Vec<String> {
                 taskAsStr = format!("{} {}", taskAsStr, NarStamp::convToStr(&iTask.read().sentence.stamp));
             }
 
-            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), mem.shared.read().cycleCounter.load(Ordering::Relaxed))));
+            res.push(format!("task  {}  credit={}", taskAsStr, taskCalcCredit(&iTask.read(), sharedGuard.cycleCounter.load(Ordering::Relaxed))));
         }
     }
 
-- 
2.43.0


From 6a86958eafe643e1c5024dd3f83721de1335d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 22/40] fix: introducing a variable left occurences inside the
 relation of an image unchanged

---
 src/NarInfProcedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarInfProcedural.rs b/src/NarInfProcedural.rs
index cc7d768..1e8eb36 100644
--- a/src/NarInfProcedural.rs
+++ b/src/NarInfProcedural.rs
@@ -180,7 +180,7 @@ fn intro_vars(t: &Term, repl: &Term,  rng: &mut rand::rngs::ThreadRng) -> Vec<Te
                 for i in elements {
                     arr.push(Box::new(helper(i, repl, with)));
                 }
-                Term::Img(Box::new((**rel).clone()),*idx,arr)
+                Term::Img(Box::new(helper(rel, repl, with)),*idx,arr)
             },
             Term::IntInt(elements) => {
                 let mut arr = vec![];
-- 
2.43.0


From 5e77c9e0e0b7f66b57bb136fd7d5d5bc092f5823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:47 +0000
Subject: [PATCH 23/40] fix: satisfied goals were still sampled because the
 accumulated desirability of goals with the same term was outdated

---
 src/NarGoalSystem.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/NarGoalSystem.rs b/src/NarGoalSystem.rs
index 69d6a54..2a60b82 100644
--- a/src/NarGoalSystem.rs
+++ b/src/NarGoalSystem.rs
@@ -820,6 +820,20 @@ pub fn event_occurred(goalSystem: &mut GoalSystem, eventTerm:&Term) {
             iEntity.desirability = 0.0; // set desirability to 0.0 because it happened
         }
     }
+
+    // the accumulated desirability of the goals with this term is outdated
+    for iBatch in &goalSystem.batchesByDepth {
+        for iGroup in &iBatch.read().groups {
+            if checkEqTerm(&iGroup.term, eventTerm) {
+                let mut acc:f64 = 0.0;
+                for iEntityRc in &iGroup.entries {
+                    let mut iEntity = iEntityRc.write();
+                    iEntity.accDesirability = acc;
+                    acc += iEntity.desirability.max(0.0) as f64;
+                }
+            }
+        }
+    }
 }
 
 /// returns the goal which matches with the term
-- 
2.43.0


From 087da8637e0b27ee960158bf736f80760f89c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:53 +0000
Subject: [PATCH 24/40] fix: ^nlpRel0 keeps relations which are not binary
 unchanged (panicked or lost components)

---
 src/OpLib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OpLib.rs b/src/OpLib.rs
index cbda5f8..c6aff65 100644
--- a/src/OpLib.rs
+++ b/src/OpLib.rs
@@ -104,7 +104,7 @@ impl NarProc::Op for Op__nlp_rel_0 {
         let rewrittenRel:Term = match rel.clone() {
             Term::Stmt(Copula::INH, subj, pred) => {
                 match *subj {
-                    Term::Prod(arr) => {
+                    Term::Prod(arr) if arr.len() == 2 => { // only binary relations can be rewritten
                         let right:Term = (*arr[1]).clone();
                         let rewrittenRight:Term = match right {
                             Term::Seq(arr) if arr.len() == 3 && checkEqTerm(&arr[1], &Term::Name("and".to_string())) => {
-- 
2.43.0


From af5ea29b5d8939d22b5a5d6926e57521c5ec5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 25/40] fix: derivative of the quotient in automatic
 differentiation

---
 src/ad.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ad.rs b/src/ad.rs
index e9cfdf6..61363ac 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -20,7 +20,7 @@ pub fn mul(a: &Ad,b: &Ad) -> Ad {
 }
 
 pub fn div(a: &Ad,b: &Ad) -> Ad {
-    let z=a.r*b.d+a.d*b.r;
+    let z=a.d*b.r-a.r*b.d;
     Ad{r:a.r/b.r,d:z/(b.r*b.r)}
 }
 
-- 
2.43.0


From 9477cc78e4f4c68cf8cc162358fd59962721cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:02 +0000
Subject: [PATCH 26/40] fix: circles are drawn with their radius, not with its
 square root

---
 src/Map2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index aba5fcb..00b03fb 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -53,7 +53,7 @@ pub fn map2dDrawBox<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,w:i32,h:i32,v:T) {
 pub fn map2dDrawCircle<T:Copy>(m:&mut Map2d<T>, cx:i32,cy:i32,r:i32,v:T) {
     for iy in -(r+1)..r+1 {
         for ix in -(r+1)..r+1 {
-            if ix*ix+iy*iy <= r {
+            if ix*ix+iy*iy <= r*r {
                 writeAt(m,cy+iy,cx+ix, v);
             }
         }
-- 
2.43.0


From 487f206f34caa8095f1cf531706b90e8a6ee773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:04 +0000
Subject: [PATCH 27/40] fix: project on the normalized direction when a line is
 drawn

---
 src/Map2d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Map2d.rs b/src/Map2d.rs
index 00b03fb..5ae9d40 100644
--- a/src/Map2d.rs
+++ b/src/Map2d.rs
@@ -90,8 +90,8 @@ pub fn drawLine<T:Copy>(m:&mut Map2d<T>, ax:i32,ay:i32,bx:i32,by:i32,v:T) {
             }
 
             // projected
-            let px = (ax as f64) + dotRes*fdiffx;
-            let py = (ay as f64) + dotRes*fdiffy;
+            let px = (ax as f64) + dotRes*nfdiffx;
+            let py = (ay as f64) + dotRes*nfdiffy;
 
             let diff2x = (ix as f64) - px;
             let diff2y = (iy as f64) - py;
-- 
2.43.0


From 7c78747ed0f43df4db7f9e78f7f7e7ff903756d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:05 +0000
Subject: [PATCH 28/40] fix: convolution uses the last row and column of
 kernels of odd size

---
 src/ModVisionC.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ModVisionC.rs b/src/ModVisionC.rs
index f7f9dfc..2aa8fc9 100644
--- a/src/ModVisionC.rs
+++ b/src/ModVisionC.rs
@@ -9,8 +9,8 @@ pub fn convWithoutBorder(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
 
             let mut acc:f64 = 0.0;
 
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -(kernel.h/2)..kernel.h-kernel.h/2 {
+                for idx in -(kernel.w/2)..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
@@ -30,8 +30,8 @@ pub fn convo(v:&Map2d<f64>, kernel:&Map2d<f64>) -> Map2d<f64> {
     for iy in 0..v.h {
         for ix in 0..v.w {
             let mut acc:f64 = 0.0;
-            for idy in -kernel.h/2..kernel.h/2 {
-                for idx in -kernel.w/2..kernel.w/2 {
+            for idy in -(kernel.h/2)..kernel.h-kernel.h/2 {
+                for idx in -(kernel.w/2)..kernel.w-kernel.w/2 {
                     let kx = kernel.w/2+idx; // kernel x
                     let ky = kernel.h/2+idy;
                     
-- 
2.43.0


From 993a522807db32cb2720e911b84370b031a52bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:00 +0000
Subject: [PATCH 29/40] fix: chaos environment passes the declarative memory,
 without it the first step panicked

---
 src/ProcChaosEntry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProcChaosEntry.rs b/src/ProcChaosEntry.rs
index 218c733..5ae621e 100644
--- a/src/ProcChaosEntry.rs
+++ b/src/ProcChaosEntry.rs
@@ -39,7 +39,7 @@ pub fn procChaosEntry() {
 
         nar.procNar.trace.event_happened( Rc::new(NarProc::SimpleSentence {name:Term::Name(format!("{}",t)),evi:nar.procNar.t,occT:nar.procNar.t}) );
 
-        NarProc::narStep1(&mut nar.procNar, &None);
+        NarProc::narStep1(&mut nar.procNar, &Some(Arc::clone(&nar.mem)));
         
         
         
-- 
2.43.0


From 1fd03ff6749197435a02c3c00092c68f91cba3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:45 +0000
Subject: [PATCH 30/40] fix: append to an existing log of the NLP module, the
 second sentence panicked

---
 src/ModNlpA.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index a6c89d1..ec230aa 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -616,8 +616,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
 
 
     let mut file = OpenOptions::new()
-        .create_new(true)
-        .write(true)
+        .create(true)
         .append(true)
         .open("logX.txt")
         .unwrap();
-- 
2.43.0


From bb0e522578050af00d57edfbf6e142dcec675393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:47 +0000
Subject: [PATCH 31/40] fix: encode the most recent signs when a sequence is
 longer than the NN input

---
 src/ModNlpA.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index ec230aa..2235dff 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -896,10 +896,7 @@ pub fn conv_seq_to_nninput(seq:&Seq) -> Vec<(f64,f64)> {
 
         let seq2_len = seq.seq.len();
 
-        for seq2_idx in 0..seq2_len { // iterate from end of sequence to beginning
-            // TODO< don't iterate over maximal capacity of encoding!
-            
-            
+        for seq2_idx in seq2_len.saturating_sub(len_codes)..seq2_len { // only the most recent signs fit into the encoding
             codes[len_codes-1-(seq.seq.len()-1-seq2_idx)] = seq.seq[seq2_idx];
         }
     }
-- 
2.43.0


From c1c3ca747874d81595ad8668bd8f7de0d70b9689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:04 +0000
Subject: [PATCH 32/40] fix: skip NLP actions which refer to words beyond the
 end of the sentence instead of panicking

---
 src/ModNlpA.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index 2235dff..4cc5338 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -668,7 +668,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
             if current_action_idx == 0 { // is FIN action? then we are done with interpreting actions
                 // do nothing
             }
-            else if current_action_idx == 1 {
+            else if current_action_idx == 1 && stimulus_words.len() > 2 {
                 // action to build relation [1]([0], [2])
         
                 log(&format!("//REL {}({}, {})", stimulus_words[1], stimulus_words[0], stimulus_words[2]));
@@ -680,7 +680,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
                     conf: 0.998, 
                 });
             }
-            else if current_action_idx == 2 {
+            else if current_action_idx == 2 && stimulus_words.len() > 4 {
                 // action to build relation [3]([0], [4])
         
                 log(&format!("//REL {}({}, {})", stimulus_words[3], stimulus_words[0], stimulus_words[4]));
@@ -692,7 +692,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
                     conf: 0.998, 
                 });
             }
-            else if current_action_idx == 3 {
+            else if current_action_idx == 3 && stimulus_words.len() > 4 {
                 // action to build relation [3]([2], [4])
         
                 log(&format!("//REL {}({}, {})", stimulus_words[3], stimulus_words[2], stimulus_words[4]));
@@ -704,7 +704,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
                     conf: 0.998, 
                 });
             }
-            else if current_action_idx == 4 {
+            else if current_action_idx == 4 && stimulus_words.len() > 3 {
                 // action to build relation want_to([0], [3])
         
                 log(&format!("//REL {}({}, {})", "want_to", stimulus_words[0], stimulus_words[3]));
@@ -716,7 +716,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
                     conf: 0.998, 
                 });
             }
-            else if current_action_idx == 7 {
+            else if current_action_idx == 7 && stimulus_words.len() > 4 {
                 // action to build relation [1]([0], [4])
         
                 log(&format!("//REL {}({}, {})", stimulus_words[1], stimulus_words[0], stimulus_words[4]));
-- 
2.43.0


From 35e2bde1014d868a3aa7e1a7f6ec57c538f402ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:13 +0000
Subject: [PATCH 33/40] fix: report unknown words and a missing network of the
 NLP module instead of panicking

---
 src/ModNlpA.rs       | 22 +++++++++++-----------
 src/NarModuleNlp3.rs |  8 +++++++-
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/ModNlpA.rs b/src/ModNlpA.rs
index 4cc5338..5727b03 100644
--- a/src/ModNlpA.rs
+++ b/src/ModNlpA.rs
@@ -113,7 +113,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
         })?;
 
         for i_val in val_iter {
-            n_layers = i_val.unwrap();
+            n_layers = i_val?;
         }
     }
     n_layers += 1;
@@ -127,7 +127,7 @@ fn nn_load() -> Result<(NeuralNetwork)> {
             })?;
 
             for i_val in val_iter {
-                n_neurons = i_val.unwrap();
+                n_neurons = i_val?;
             }
         }
         n_neurons += 1;
@@ -587,14 +587,14 @@ fn network_test() {
     // NNP VBZ JJ CC JJ
     let stimulus_words: Vec<String> = vec!["Tom".to_string(), "is".to_string(), "fast".to_string(), "and".to_string(), "fat".to_string()];
 
-    let (control_seq, relations) = network_run(&stimulus_words);
+    let (control_seq, relations) = network_run(&stimulus_words).unwrap();
 }
 
 // load the network from the file and run it
 // /param stimulus_words the actual words of the stimulus
-// /return (control sequence which was returned from the NN, extracted relations)
-pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
-    let nn:NeuralNetwork = nn_load().unwrap();
+// /return (control sequence which was returned from the NN, extracted relations) or an error if the network can't be loaded or a word isn't known
+pub fn network_run(stimulus_words: &[String]) -> std::result::Result<(Vec<i64>, Vec<Relation>), String> {
+    let nn:NeuralNetwork = nn_load().map_err(|e| format!("can't load network: {}", e))?;
 
 
     { // debug: print weights
@@ -633,7 +633,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
 
     let mut extracted_relations: Vec<Relation> = vec![]; // array of extracted relations
     
-    let pos: Vec<String> = conv_tokens_to_poss(&stimulus_words);
+    let pos: Vec<String> = conv_tokens_to_poss(&stimulus_words)?;
     println!("pos = {:?}", &pos); // DGB pos
 
     let mut current_stimulus: Vec<i64> = prot_pos0(pos); //prot_pos0(vec!["NNP".to_string(), "VBZ".to_string(), "JJ".to_string(), "CC".to_string(), "JJ".to_string()]);
@@ -735,7 +735,7 @@ pub fn network_run(stimulus_words: &[String]) -> (Vec<i64>, Vec<Relation>) {
         current_stimulus.push(pos_ret_codes() + current_action_idx);
     }
     
-    (control_log, extracted_relations)
+    Ok((control_log, extracted_relations))
 }
 
 /// structure for an relation extracted from natural language
@@ -1034,7 +1034,7 @@ pub fn prot_pos0(cls:Vec<String>) -> Vec<i64> {
 
 
 // convert words to part of speech
-pub fn conv_tokens_to_poss(tokens:&[String]) -> Vec<String> {
+pub fn conv_tokens_to_poss(tokens:&[String]) -> std::result::Result<Vec<String>, String> {
     let mut res = vec![];
     for i_token in tokens {
         if      i_token == &"Tom".to_string() {res.push("NNP".to_string());}
@@ -1063,8 +1063,8 @@ pub fn conv_tokens_to_poss(tokens:&[String]) -> Vec<String> {
         else if i_token == &"Cat".to_string() {res.push("NN".to_string());} // is this right?
 
         else if i_token == &"want".to_string() {res.push("VBT".to_string());} // not always right
-        else {panic!(format!("unknown word \"{}\"", &i_token));}
+        else {return Err(format!("unknown word \"{}\"", &i_token));}
     }
-    res
+    Ok(res)
 }
 
diff --git a/src/NarModuleNlp3.rs b/src/NarModuleNlp3.rs
index 489fb29..7f9932d 100644
--- a/src/NarModuleNlp3.rs
+++ b/src/NarModuleNlp3.rs
@@ -22,7 +22,13 @@ pub fn process(parentNar: &mut Nar, natural:&String) {
         tokens2.push(i_token.to_string());
     }
     
-    let (control_seq, relations) = ModNlpA::network_run(&tokens2);
+    let (control_seq, relations) = match ModNlpA::network_run(&tokens2) {
+        Ok(res) => res,
+        Err(msg) => {
+            println!("ERR - NLP: {}", msg);
+            return;
+        }
+    };
     
     // convert relations to narsese and put it into NAR
     for i_relation in &relations {
-- 
2.43.0


From 63e867eefcaa68981c4051b498288ff8e115ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:16 +0000
Subject: [PATCH 34/40] fix: server sent the last message again for every line
 of a client

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index f15ebd2..4f8beef 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -58,7 +58,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
             let data = global.lock().unwrap(); // unwrap to panic if it can't unlock
             for iItem in &data.arr { // iterate over global items and send to writer
                 if iItem.0 >= myIdCounter { // is it a message which this tread didn't yet observe?
-                    myIdCounter = iItem.0; // update counter so the message is next time ignored
+                    myIdCounter = iItem.0 + 1; // update counter so the message is next time ignored
                     let bcastedMsg:String = iItem.1.clone(); // copy broadcasted string to local variable
                     toSend.push(bcastedMsg);
                 }
-- 
2.43.0


From f2caaa9f9d1d7595ffbc81a7ee2f9d738674bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:33 +0000
Subject: [PATCH 35/40] fix: server did not answer temporal questions
 (procedural memory not wired up)

---
 src/NarServer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 4f8beef..61bb10b 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -107,6 +107,7 @@ pub fn run() {
     // worker thread which runs NAR
     thread::spawn(move || {
         let mut nar = createNar();
+        nar.mem.read().shared.write().procMem = Arc::clone(&nar.procNar.evidenceMem); // wire up proc memory for proc-Q&A
         nar.mem.read().globalQaHandlers.write().push(Arc::new(RwLock::new(QHandlerImpl{global:Arc::clone(&global)}))); // register Q&A handler to send answers to all clients
 
         loop {
-- 
2.43.0


From b32f599b71be11685fe67affebe0581c65c6cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:58 +0000
Subject: [PATCH 36/40] fix: a client which disconnects at once ended the
 server

---
 src/NarServer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 61bb10b..6819d71 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -28,8 +28,14 @@ async fn acceptLoop(addr: impl ToSocketAddrs + async_std::net::ToSocketAddrs, tx
     let mut incoming = listener.incoming();
     
     while let Some(stream) = incoming.next().await {
-        let stream = stream?;
-        println!("Accepting from: {}", stream.peer_addr()?);
+        let (stream, peerAddr) = match stream.and_then(|s| s.peer_addr().map(|addr| (s, addr))) {
+            Ok(v) => v,
+            Err(err) => { // the client is already gone, this must not end the server for the other clients
+                println!("ERR - couldn't accept client: {}", err);
+                continue;
+            }
+        };
+        println!("Accepting from: {}", peerAddr);
         let _handle = task::spawn(connectionLoop(stream, tx.clone(), global.clone()));
     }
 
-- 
2.43.0


From 1b59694a95e25ec417f1fd90e4b920c8ea0118ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:39 +0000
Subject: [PATCH 37/40] fix: interactive session repeated the last input
 without end when its input was closed

---
 src/NarInteractive.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/NarInteractive.rs b/src/NarInteractive.rs
index 630dae7..c069d09 100644
--- a/src/NarInteractive.rs
+++ b/src/NarInteractive.rs
@@ -12,6 +12,7 @@ pub fn runInteractive(nar:&mut Nar) {
     loop {
         let mut input2 = String::new();
         match io::stdin().read_line(&mut input2) {
+            Ok(0) => break, // end of input, the session was closed
             Ok(_) => {
                 let mut input = input2.clone();
                 trimNewline(&mut input);
-- 
2.43.0


From b820e22c0c8f12faa6d41accebf35110db402e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:23 +0000
Subject: [PATCH 38/40] fix: revise and store a belief under one lock

memReviseBelief() locked the memory anew for each concept and memAddTask() stored
under another lock. When the deriver stored a belief with the same term in between,
the told belief was revised in some concepts and lost in the others, or was stored
beside the other one instead of being revised with it.
---
 src/NarWorkingCycle.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/NarWorkingCycle.rs b/src/NarWorkingCycle.rs
index 3dbe9e2..dd1b835 100644
--- a/src/NarWorkingCycle.rs
+++ b/src/NarWorkingCycle.rs
@@ -1419,6 +1419,12 @@ pub fn populateTaskByTermLookup(judgementTasksByTerm:Arc<RwLock< HashMap<Term, V
 ///
 /// returns Some with the conclusion if it has done revision
 pub fn memReviseBelief(mem:Arc<RwLock<NarMem::Mem>>, sentence:&Sentence) -> Option<Sentence> {
+    let mut memGuard = mem.write(); // one lock for all concepts, else another thread could store the same belief in between
+    memReviseBelief2(&mut memGuard, sentence)
+}
+
+/// helper, same as memReviseBelief() for memory which is already locked
+fn memReviseBelief2(mem:&mut NarMem::Mem, sentence:&Sentence) -> Option<Sentence> {
     // MECHANISM< belief revision
     // revises beliefs if the term matches and if the stamps don't overlap
     // >
@@ -1432,7 +1438,7 @@ pub fn memReviseBelief(mem:Arc<RwLock<NarMem::Mem>>, sentence:&Sentence) -> Opti
         EnumPunctation::JUGEMENT => {
             
             for iTerm in retSubterms(&*sentence.term) { // enumerate all terms, we need to do this to add the sentence to all relevant names
-                match mem.write().concepts.get_mut(&iTerm.clone()) {
+                match mem.concepts.get_mut(&iTerm.clone()) {
                     Some(arcConcept) => {
                         match Arc::get_mut(arcConcept) {
                             Some(concept) => {
@@ -1538,8 +1544,17 @@ pub fn memAddTask(shared:Arc<RwLock<DeclarativeShared>>, sentence:&Sentence, cal
     let mut toAddToTasks = vec![sentence.clone()];
     
     // try to revise
-    let revisionConcl:Option<Sentence> = memReviseBelief(Arc::clone(&shared.read().mem), sentence);
-    let wasRevised = revisionConcl.is_some();
+    // revision and storage are done under one lock, because the belief is lost for a concept if another thread stores a belief with the same term in between
+    let revisionConcl:Option<Sentence> = {
+        let sharedGuard = shared.read();
+        let mut memGuard = sharedGuard.mem.write();
+        let revisionConcl:Option<Sentence> = memReviseBelief2(&mut memGuard, sentence);
+        if !revisionConcl.is_some() {
+            // add it only if it wasn't revised
+            NarMem::storeInConcepts(&mut memGuard, sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
+        }
+        revisionConcl
+    };
     match revisionConcl {
         Some(revConcl) => {
             toAddToTasks.push(revConcl.clone());
@@ -1547,12 +1562,6 @@ pub fn memAddTask(shared:Arc<RwLock<DeclarativeShared>>, sentence:&Sentence, cal
         None => {}
     }
 
-
-    if !wasRevised {
-        // add it only if it wasn't revised
-        NarMem::storeInConcepts(&mut shared.read().mem.write(), sentence, cfg__nConceptBeliefs, currentTime); // store sentence in memory, adressed by concepts
-    }
-
     for iToAddToTasks in &toAddToTasks {
         match iToAddToTasks.punct {
             EnumPunctation::JUGEMENT => {
-- 
2.43.0


From fb3ccd6c4680fa3f4373c79777f6bb372215e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:22 +0000
Subject: [PATCH 39/40] fix: the server sent only a part of a long message to a
 client which reads slowly

---
 src/NarServer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NarServer.rs b/src/NarServer.rs
index 6819d71..2a5d446 100644
--- a/src/NarServer.rs
+++ b/src/NarServer.rs
@@ -73,7 +73,7 @@ async fn connectionLoop(stream: TcpStream, tx: Sender<String>, global:Arc<Mutex<
         
         for iLine in &toSend {
             // send broadcasted to stream
-            writer.write((iLine.to_owned()+"\n").as_bytes()).await;
+            writer.write_all((iLine.to_owned()+"\n").as_bytes()).await;
             writer.flush().await;
         }
 
-- 
2.43.0


From ddcce2aa364f1ff5c2ffa01883385bb0d9acc364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:01 +0000
Subject: [PATCH 40/40] fix: sigmoid gave NaN for large activations

---
 src/ad.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ad.rs b/src/ad.rs
index 61363ac..360cdc0 100644
--- a/src/ad.rs
+++ b/src/ad.rs
@@ -48,6 +48,11 @@ pub fn reluAct(v:&Ad) -> Ad {
 }
 
 pub fn sigmoidAct(v:&Ad) -> Ad {
+    if v.r > 0.0 { // exp(v) overflows for large activations
+        let one = Ad{r:1.0,d:0.0};
+        let z = exp(&Ad{r:-v.r,d:-v.d});
+        return div(&one, &add(&one, &z));
+    }
     let z=exp(&v);
     div(&z, &add(&z, &Ad{r:1.0,d:0.0}))
 }
-- 
2.43.0

