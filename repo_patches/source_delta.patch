From 3b1875f7ca370ab76017c48461a285d4598ab176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:13 +0000
Subject: [PATCH 01/57] fix: map relocations to symbols by index

Keying an object's symbols by name, type, section and size confuses two
local symbols that differ in their value only.
---
 src/lib.rs | 37 ++++++-------------------------------
 1 file changed, 6 insertions(+), 31 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7dbd032..7e9d7b9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::Archive,
-    elf::{sym::Sym, Elf},
+    elf::Elf,
     elf64::{
         reloc::Rela,
         section_header::{
@@ -19,37 +19,12 @@ use goblin::{
 use std::{
     collections::{HashMap, HashSet},
     fs::read,
-    hash::{Hash, Hasher},
     path::{Path, PathBuf},
 };
 
 const SKIPPED_SECTIONS: &[u32] =
     &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
-struct Symbol(Sym);
-
-impl PartialEq for Symbol {
-    fn eq(&self, s2: &Self) -> bool {
-        self.0.st_name == s2.0.st_name
-            && self.0.st_info == s2.0.st_info
-            && self.0.st_other == s2.0.st_other
-            && self.0.st_shndx == s2.0.st_shndx
-            && self.0.st_size == s2.0.st_size
-    }
-}
-
-impl Eq for Symbol {}
-
-impl Hash for Symbol {
-    fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.st_name.hash(state);
-        self.0.st_info.hash(state);
-        self.0.st_other.hash(state);
-        self.0.st_shndx.hash(state);
-        self.0.st_size.hash(state);
-    }
-}
-
 pub struct Input<'p, 'd> {
     path: &'p Path,
     data: &'d [u8],
@@ -59,7 +34,8 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
     input: &'i Input<'p, 'd>,
     elf: Elf<'e>,
     section_relocations: HashMap<usize, elf::SectionRef<'p>>,
-    symbols: HashMap<Symbol, elf::SymbolRef>,
+    /// Mapping from the index of a symbol in this object to the linked symbol.
+    symbols: HashMap<usize, elf::SymbolRef>,
 }
 
 impl<'p, 'd> Input<'p, 'd> {
@@ -104,14 +80,14 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_symbols(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let path = &self.input.path;
         let elf = &self.elf;
-        for symbol in &elf.syms {
+        for (i, symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
             if let Some(sym) = symbol_ref {
-                self.symbols.insert(Symbol(symbol), sym);
+                self.symbols.insert(i, sym);
             }
         }
         Ok(())
@@ -121,13 +97,12 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let symbol = &elf.syms.get(rel.r_sym as usize).unwrap();
                 let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
                     sec.clone()
                 } else {
                     continue;
                 };
-                let symbol = if let Some(sym) = self.symbols.get(&Symbol(*symbol)) {
+                let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
                     sym
                 } else {
                     continue;
-- 
2.43.0


From ccef247c4fbe6f7bc98c0f2c787965f27fd18580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:14 +0000
Subject: [PATCH 02/57] fix: relocate the section a relocation section names in
 sh_info

It does not have to be the section right before it.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 7e9d7b9..db5ed97 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,7 +97,8 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
             for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let index = if let Some(sec) = self.section_relocations.get(&(section_index - 1)) {
+                let target = elf.section_headers[*section_index].sh_info as usize;
+                let index = if let Some(sec) = self.section_relocations.get(&target) {
                     sec.clone()
                 } else {
                     continue;
-- 
2.43.0


From 7a15061fb4634429840c2b0f6fd4b26152fa0b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:55 +0000
Subject: [PATCH 03/57] fix: resolve symbols by ELF precedence and keep local
 symbols apart

A definition that follows an undefined reference only took over the section
of the reference, so the symbol ended up at the start of that section. A
symbol that was defined in two objects had both sections' addresses added to
its value, a weak definition was lost to a later undefined reference, and
local symbols with the same name were merged with each other and with globals.
---
 src/elf.rs              | 44 +++++++++++++++-------------
 src/elf/symbol_table.rs | 63 +++++++++++++++++++++++------------------
 src/lib.rs              |  4 +--
 src/symbol.rs           | 20 ++++++++-----
 4 files changed, 75 insertions(+), 56 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0f4416c..f670d8a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -147,6 +147,8 @@ pub struct Writer<'d> {
     sections: Vec<SectionPtr<'d>>,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
+    // where each symbol is defined
+    definitions: HashMap<SymbolRef, SectionRef<'d>>,
     dyn_entries: Vec<(DynTag, u64)>,
     program_headers: Vec<ProgramHeader>,
     p_vaddr: u64,
@@ -354,6 +356,7 @@ impl<'d> Writer<'d> {
             // first entry reserved
             got_len: 1,
             got_plt: Default::default(),
+            definitions: Default::default(),
             dyn_entries: vec![(DynTag::Needed, interp_entry.offset as u64)],
             program_headers: vec![],
             p_vaddr: 0x200000,
@@ -430,51 +433,51 @@ impl<'d> Writer<'d> {
 
     fn add_symbol_inner<'s>(
         mut elf_sym: Sym,
-        section: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
         symbol_names: &mut StringTable,
         symbols: &mut SymbolTable<'d>,
-    ) -> Result<SymbolRef, ErrorType> {
+    ) -> Result<(SymbolRef, bool), ErrorType> {
         let name: Name = name.to_string().into();
         let hash = name.elf_hash();
         let gnu_hash = name.elf_gnu_hash();
         let st_name = symbol_names.get_or_create(name.clone()).offset as u32;
         elf_sym.st_name = st_name;
         log::trace!("name: '{}' -> sym: {:?}", &name as &str, elf_sym);
-        let r = symbols
+        symbols
             .add_symbol(elf_sym, hash, gnu_hash, reference)
-            .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))?;
-        if let Some(section_ref) = section {
-            if elf_sym.st_shndx != SHN_ABS as u16 {
-                section_ref.section.write().chunk_mut(section_ref.chunk).add_symbol(r);
-            }
-        }
-        Ok(r)
+            .map_err(|e| ErrorType::Other(format!("{} {}", &name as &str, e)))
     }
 
     pub fn add_symbol<'s>(
         &mut self,
         elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
+        sec_ref: Option<SectionRef<'d>>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
-        Self::add_symbol_inner(
+        let (r, adopted) = Self::add_symbol_inner(
             elf_sym,
-            sec_ref,
             name,
             reference,
             self.sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
-        )
-        .map(Some)
+        )?;
+        if adopted {
+            // forget about the section of the definition that we've replaced, if any
+            self.definitions.remove(&r);
+            if let Some(section_ref) = sec_ref {
+                if ![SHN_ABS, SHN_UNDEF].contains(&(elf_sym.st_shndx as u32)) {
+                    self.definitions.insert(r, section_ref);
+                }
+            }
+        }
+        Ok(Some(r))
     }
 
     pub fn add_dyn_symbol<'s>(
         &mut self,
         mut elf_sym: Sym,
-        sec_ref: Option<SectionRef>,
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
@@ -482,13 +485,12 @@ impl<'d> Writer<'d> {
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
             elf_sym,
-            sec_ref,
             name,
             reference,
             self.dyn_sym_str_section.write().inner_mut::<StringTable>().unwrap(),
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
         );
-        if let Ok(dyn_ref) = r {
+        if let Ok((dyn_ref, _)) = r {
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
             {
@@ -501,7 +503,7 @@ impl<'d> Writer<'d> {
                     .set_dynamic(dyn_ref);
             }
         }
-        r.map(Some)
+        r.map(|(dyn_ref, _)| Some(dyn_ref))
     }
 
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
@@ -807,6 +809,10 @@ impl<'d> Writer<'d> {
     }
 
     fn assign_section_addresses(&mut self) {
+        for (sym_ref, def) in self.definitions.drain() {
+            def.section.write().chunk_mut(def.chunk).add_symbol(sym_ref);
+        }
+
         self.scan_relocations();
 
         self.resize_got_section();
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 9cee311..c831697 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -22,6 +22,8 @@ use super::section::{Synthesized, SynthesizedKind};
 #[derive(Debug, Clone, Copy, Hash, PartialEq, Eq)]
 pub enum SymbolRef {
     Named(u32),
+    // n-th local symbol
+    Local(usize),
     // section + number
     Section(u16, usize),
 }
@@ -31,7 +33,7 @@ impl SymbolRef {
         if let Self::Named(n) = self {
             *n
         } else {
-            // SECTION symbols don't have a name
+            // SECTION symbols don't have a name, and LOCAL ones are not looked up by it
             0
         }
     }
@@ -46,8 +48,9 @@ pub enum Error {
 #[derive(Debug)]
 pub struct SymbolTable<'p> {
     symbols: HashMap<u32, Symbol<'p>>,
+    // different objects can have local symbols with the same name
+    locals: Vec<Symbol<'p>>,
     section_syms: HashMap<u16, Vec<Symbol<'p>>>,
-    num_locals: usize,
     is_dynamic: bool,
 }
 
@@ -55,8 +58,8 @@ impl Default for SymbolTable<'_> {
     fn default() -> Self {
         let mut table = Self {
             symbols: Default::default(),
+            locals: vec![],
             section_syms: Default::default(),
-            num_locals: 0,
             is_dynamic: false,
         };
         table
@@ -76,13 +79,14 @@ impl<'p> SymbolTable<'p> {
         Self { is_dynamic, ..Default::default() }
     }
 
+    /// Returns a reference to the symbol, and whether `elf_sym` is what it now refers to.
     pub fn add_symbol(
         &mut self,
         elf_sym: Sym,
         hash: u32,
         gnu_hash: u32,
         reference: &'p Path,
-    ) -> Result<SymbolRef, Error> {
+    ) -> Result<(SymbolRef, bool), Error> {
         let st_name = elf_sym.st_name;
         let st_type = st_type(elf_sym.st_info);
         let new_sym = Symbol::new(elf_sym, hash, gnu_hash, reference);
@@ -94,9 +98,17 @@ impl<'p> SymbolTable<'p> {
                 .or_insert_with(|| vec![new_sym])
                 .len()
                 - 1;
-            return Ok(SymbolRef::Section(elf_sym.st_shndx, len));
+            return Ok((SymbolRef::Section(elf_sym.st_shndx, len), true));
         }
-        match self.symbols.entry(st_name) {
+        if new_sym.is_local() {
+            // all objects share the null symbol
+            if st_name == 0 && new_sym.is_undefined() && !self.locals.is_empty() {
+                return Ok((SymbolRef::Local(0), false));
+            }
+            self.locals.push(new_sym);
+            return Ok((SymbolRef::Local(self.locals.len() - 1), true));
+        }
+        let adopted = match self.symbols.entry(st_name) {
             Entry::Occupied(mut s) => {
                 let old_sym = s.get_mut();
                 // we found another definition of this global symbol
@@ -112,29 +124,31 @@ impl<'p> SymbolTable<'p> {
                     );
                     return Err(Error::AlreadyDefined(old_sym.reference().into()));
                 }
-                if !old_sym.higher_bind_than(new_sym) {
+                let adopt = new_sym.precedence() > old_sym.precedence();
+                if adopt {
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
                     old_sym.st_shndx = new_sym.st_shndx;
                     old_sym.st_value = new_sym.st_value;
                     old_sym.st_size = new_sym.st_size;
-                } else if old_sym.st_shndx == SHN_UNDEF as u16 {
-                    old_sym.st_shndx = new_sym.st_shndx;
+                    old_sym.set_reference(reference);
+                } else if old_sym.is_undefined() && old_sym.is_weak() && new_sym.is_global() {
+                    old_sym.st_info = new_sym.st_info;
                 }
+                adopt
             }
             Entry::Vacant(v) => {
-                if new_sym.is_local() {
-                    self.num_locals += 1;
-                }
                 v.insert(new_sym);
+                true
             }
         };
-        Ok(SymbolRef::Named(st_name))
+        Ok((SymbolRef::Named(st_name), adopted))
     }
 
     pub fn get(&self, s: SymbolRef) -> Option<&Symbol<'_>> {
         match s {
             SymbolRef::Named(n) => self.symbols.get(&n),
+            SymbolRef::Local(i) => self.locals.get(i),
             SymbolRef::Section(s, i) => self.section_syms.get(&s).map(|s| &s[i]),
         }
     }
@@ -142,6 +156,7 @@ impl<'p> SymbolTable<'p> {
     pub fn get_mut(&mut self, s: SymbolRef) -> Option<&mut Symbol<'p>> {
         match s {
             SymbolRef::Named(n) => self.symbols.get_mut(&n),
+            SymbolRef::Local(i) => self.locals.get_mut(i),
             SymbolRef::Section(s, i) => self.section_syms.get_mut(&s).map(|s| &mut s[i]),
         }
     }
@@ -149,25 +164,23 @@ impl<'p> SymbolTable<'p> {
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let mut syms: Vec<&Symbol<'p>> = self.symbols.values().collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms
+        self.locals.iter().chain(syms).collect()
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
         let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
         syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms
+        self.locals.iter_mut().chain(syms).collect()
     }
 
     /// Useful for those cases where we need quick access to a symbol with a given
     /// st_name, and we want to know its index in the final symbol table.
     pub fn sorted_with_indexes(&mut self) -> HashMap<u32, (usize, &mut Symbol<'p>)> {
-        let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
-        syms.into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
+        self.sorted_mut().into_iter().enumerate().map(|(i, s)| (s.st_name, (i, s))).collect()
     }
 
     pub fn total_len(&self) -> usize {
-        self.symbols.len() * size_of::<Sym>()
+        (self.locals.len() + self.symbols.len()) * size_of::<Sym>()
     }
 
     pub fn chunk(&self) -> Chunk {
@@ -179,7 +192,7 @@ impl<'p> SymbolTable<'p> {
     }
 
     pub fn num_locals(&self) -> usize {
-        self.num_locals
+        self.locals.len()
     }
 
     pub fn named(&self) -> &HashMap<u32, Symbol<'_>> {
@@ -257,19 +270,15 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     fn index(&self, index: SymbolRef) -> &Self::Output {
         match index {
             SymbolRef::Named(n) => &self.symbols[&n],
+            SymbolRef::Local(i) => &self.locals[i],
             SymbolRef::Section(s, i) => &self.section_syms[&s][i],
         }
     }
 }
 
-// local before global, then compare by gnu hash
+// compare by gnu hash
 fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
-    let b1 = if s1.is_local() { 0 } else { 1 };
-    let b2 = if s2.is_local() { 0 } else { 1 };
-    match b1.cmp(&b2) {
-        Ordering::Equal => s1.gnu_hash().cmp(&s2.gnu_hash()),
-        c => c,
-    }
+    s1.gnu_hash().cmp(&s2.gnu_hash())
 }
 
 #[derive(Default)]
diff --git a/src/lib.rs b/src/lib.rs
index db5ed97..d82fb17 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -148,9 +148,7 @@ impl Linker {
                     let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                     if name == inner_name {
                         *entry.1 = true;
-                        writer
-                            .add_dyn_symbol(sym.into(), None, inner_name, path)
-                            .map_path_err(path)?;
+                        writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
                         writer.add_needed(path.file_name().unwrap().to_str().unwrap());
                     }
                 }
diff --git a/src/symbol.rs b/src/symbol.rs
index fcabbf6..f8b8f24 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -74,6 +74,10 @@ impl<'r> Symbol<'r> {
         self.reference
     }
 
+    pub fn set_reference(&mut self, reference: &'r Path) {
+        self.reference = reference;
+    }
+
     pub const fn got_offset(&self) -> Option<usize> {
         self.in_got
     }
@@ -98,13 +102,15 @@ impl<'r> Symbol<'r> {
         self.in_plt = Some(index);
     }
 
-    pub const fn higher_bind_than(&self, sym: Symbol<'_>) -> bool {
-        let s1 = self.st_bind();
-        let s2 = sym.st_bind();
-        !matches!(
-            (s1, s2),
-            (STB_LOCAL, STB_WEAK) | (STB_LOCAL, STB_GLOBAL) | (STB_WEAK, STB_GLOBAL)
-        )
+    /// A symbol takes the place of another one of a lower precedence.
+    pub const fn precedence(&self) -> u8 {
+        if self.is_undefined() {
+            0
+        } else if self.is_global() {
+            2
+        } else {
+            1
+        }
     }
 
     pub const fn hash(&self) -> u32 {
-- 
2.43.0


From 60bb62b6d90a991c80b2da18e23f27618ed7ddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:45 +0000
Subject: [PATCH 04/57] fix: give every NOBITS input section its own space

The second .bss of a link shared its addresses with the first one.
---
 src/elf.rs         | 25 ++++++++++++++++---------
 src/elf/chunk.rs   | 18 +++++++++++++++++-
 src/elf/section.rs |  4 ++--
 3 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index f670d8a..0937659 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -7,8 +7,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_PROGBITS, SHT_RELA,
-        SHT_STRTAB,
+        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
+        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::Sym,
 };
@@ -21,7 +21,7 @@ use std::{
     collections::HashMap,
     convert::TryInto,
     fs::File,
-    io::Write,
+    io::{Read, Write},
     mem::{align_of, size_of},
     os::unix::prelude::PermissionsExt,
     path::Path,
@@ -403,19 +403,22 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let sh = Section::builder(sh).with_chunk(data.unwrap_or_default()).build();
+            let chunk = data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from);
+            let sh = Section::new(sh);
+            sh.write().add_chunk(chunk);
             self.sections.push(Arc::clone(&sh));
             (sh, 0)
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
             section.sh_size += sh.sh_size;
+            if section.sh_type == SHT_NOBITS {
+                // the zeroes are going to be in the file if there's data as well
+                section.sh_type = sh.sh_type;
+            }
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
-            let chunk = if let Some(data) = data {
-                section.add_chunk(Chunk::from(data))
-            } else {
-                section.last_chunk_index()
-            };
+            let chunk =
+                section.add_chunk(data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from));
             (section_ptr, chunk)
         };
         SectionRef { section, chunk }
@@ -987,6 +990,10 @@ impl<'d> Writer<'d> {
             section.finalize();
             for chunk in section.chunks() {
                 self.out.write_all(chunk).unwrap();
+                if section.sh_type != SHT_NOBITS {
+                    std::io::copy(&mut std::io::repeat(0).take(chunk.zeroes()), &mut self.out)
+                        .unwrap();
+                }
             }
             offset += section.size_on_disk() as usize;
         }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index c0ab8c0..50f3d2e 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -11,13 +11,29 @@ use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 pub struct Chunk {
     address: Option<u64>,
     data: Vec<u8>,
+    /// How many zeroes follow the data. Those of a NOBITS section are not in the file.
+    zeroes: u64,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
 }
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, symbols: Default::default(), relocations: vec![] }
+        Self { address: None, data, zeroes: 0, symbols: Default::default(), relocations: vec![] }
+    }
+
+    /// A chunk of a NOBITS section.
+    pub fn zeroed(size: u64) -> Self {
+        Self { zeroes: size, ..Self::new(vec![]) }
+    }
+
+    pub fn zeroes(&self) -> u64 {
+        self.zeroes
+    }
+
+    /// The size of the chunk in memory.
+    pub fn size(&self) -> u64 {
+        self.data.len() as u64 + self.zeroes
     }
 
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 87e0655..0925f00 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -196,7 +196,7 @@ impl<'p> Section<'p> {
         let mut base_addr = self.sh_addr;
         for chunk in &mut self.chunks {
             chunk.set_address(base_addr);
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
@@ -214,7 +214,7 @@ impl<'p> Section<'p> {
                     }
                 }
             }
-            base_addr += chunk.len() as u64;
+            base_addr += chunk.size();
         }
     }
 
-- 
2.43.0


From f316d8d5b4056663c792a7b0669133b3ad3a3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:53 +0000
Subject: [PATCH 05/57] fix: honour section alignment and keep NOBITS sections
 last in their segment

---
 src/elf.rs         | 41 ++++++++++++++++++++++++++++++-----------
 src/elf/chunk.rs   |  9 +++++++++
 src/elf/section.rs | 11 ++++++++++-
 3 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 0937659..0ef7897 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -411,7 +411,9 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
-            section.sh_size += sh.sh_size;
+            let padding = round_to(section.sh_size, sh.sh_addralign) - section.sh_size;
+            section.pad(padding);
+            section.sh_size += padding + sh.sh_size;
             if section.sh_type == SHT_NOBITS {
                 // the zeroes are going to be in the file if there's data as well
                 section.sh_type = sh.sh_type;
@@ -1035,7 +1037,6 @@ impl<'d> Writer<'d> {
         let mut flags = 0;
         let mut program_header = None;
         for sh in self.sections.iter_mut().skip(1) {
-            let old_p_vaddr = self.p_vaddr;
             let mut sh = sh.write();
             if sh.sh_flags != flags {
                 // push old program header
@@ -1052,17 +1053,25 @@ impl<'d> Writer<'d> {
                     &mut first_load_data,
                 );
                 if program_header.is_none() {
+                    self.file_offset = round_to(self.file_offset, sh.sh_addralign);
                     sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
                 }
                 flags = sh.sh_flags;
+            } else if let Some(ph) = program_header.as_mut() {
+                let padding = round_to(self.p_vaddr, sh.sh_addralign) - self.p_vaddr;
+                self.p_vaddr += padding;
+                if sh.sh_type != SHT_NOBITS {
+                    self.file_offset += padding;
+                    ph.p_filesz += padding;
+                }
+                sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
+                ph.p_filesz += sh.size_on_disk();
+                ph.p_memsz += padding + sh.sh_size;
+                sh.set_address(self.p_vaddr);
+                self.p_vaddr += sh.sh_size;
             } else {
+                self.file_offset = round_to(self.file_offset, sh.sh_addralign);
                 sh.sh_offset = post_inc(&mut self.file_offset, sh.size_on_disk());
-                if let Some(ph) = program_header.as_mut() {
-                    ph.p_filesz += sh.size_on_disk();
-                    ph.p_memsz += sh.sh_size;
-                    sh.set_address(self.p_vaddr);
-                    self.p_vaddr += sh.sh_size;
-                }
             }
             let sh = WGuard::downgrade(sh);
             if let Some(p_type) =
@@ -1077,8 +1086,8 @@ impl<'d> Writer<'d> {
                         p_flags: PF_R | write,
                         p_align: sh.sh_addralign,
                         p_offset: sh.sh_offset,
-                        p_vaddr: old_p_vaddr,
-                        p_paddr: old_p_vaddr,
+                        p_vaddr: sh.sh_addr,
+                        p_paddr: sh.sh_addr,
                         p_filesz: sh.size_on_disk(),
                         p_memsz: sh.sh_size,
                     },
@@ -1138,6 +1147,13 @@ fn get_load_program_header(
         let write = if sh.sh_flags as u32 & SHF_WRITE == SHF_WRITE { PF_W } else { 0 };
         let exec = if sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { PF_X } else { 0 };
         *p_vaddr = round_to(*p_vaddr, PAGE_ALIGNMENT);
+        // the segment starts with the extra data, or is aligned like the section
+        let extra_data = if first_load {
+            round_to(*p_vaddr + extra_data, sh.sh_addralign) - *p_vaddr
+        } else {
+            *p_vaddr = round_to(*p_vaddr, sh.sh_addralign);
+            0
+        };
         sh.set_address(*p_vaddr + extra_data);
         *file_offset = round_to(*file_offset, PAGE_ALIGNMENT);
         let sh_size_on_disk = sh.size_on_disk() + extra_data;
@@ -1234,7 +1250,10 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
     match s1.sh_flags.cmp(&s2.sh_flags) {
-        Ordering::Equal => s1.sh_addralign.cmp(&s2.sh_addralign).reverse(),
+        // there is nothing for NOBITS sections in the file, so nothing can come after them
+        Ordering::Equal => (s1.sh_type == SHT_NOBITS)
+            .cmp(&(s2.sh_type == SHT_NOBITS))
+            .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse()),
         // no flags should come last
         o => {
             if s1.sh_flags == 0 {
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 50f3d2e..20cf20e 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -27,6 +27,15 @@ impl Chunk {
         Self { zeroes: size, ..Self::new(vec![]) }
     }
 
+    pub fn pad(&mut self, size: u64, fill: Option<u8>) {
+        match fill {
+            Some(fill) if self.zeroes == 0 => {
+                self.data.resize(self.data.len() + size as usize, fill)
+            }
+            _ => self.zeroes += size,
+        }
+    }
+
     pub fn zeroes(&self) -> u64 {
         self.zeroes
     }
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 0925f00..d683572 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -6,7 +6,7 @@ use crate::elf::{
     SymbolRef,
 };
 
-use goblin::elf64::section_header::{SectionHeader, SHT_NOBITS};
+use goblin::elf64::section_header::{SectionHeader, SHF_EXECINSTR, SHT_NOBITS};
 use parking_lot::RwLock;
 use std::sync::Arc;
 
@@ -167,6 +167,15 @@ impl<'p> Section<'p> {
         self.chunks.len() - 1
     }
 
+    /// Adds some padding after the last chunk.
+    pub fn pad(&mut self, size: u64) {
+        let fill = if self.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { 0x90 } else { 0 };
+        let in_file = self.sh_type != SHT_NOBITS;
+        if let Some(chunk) = self.chunks.last_mut() {
+            chunk.pad(size, if in_file { Some(fill) } else { None });
+        }
+    }
+
     pub fn last_chunk_index(&self) -> usize {
         self.chunks.len() - 1
     }
-- 
2.43.0


From a6a8677c95a8f16dd496967859256f99841fe829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:49 +0000
Subject: [PATCH 06/57] fix: link relocations of sections that are not loaded

---
 src/elf/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 20cf20e..a854ef2 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -74,7 +74,8 @@ impl Chunk {
     ) {
         for (rela, symbol_ref) in &self.relocations {
             apply_relocation(
-                *self.address.as_ref().unwrap(),
+                // sections which are not loaded have no address
+                self.address.unwrap_or_default(),
                 &mut self.data[..],
                 *rela,
                 table.get(*symbol_ref).unwrap(),
-- 
2.43.0


From ad04415832a5eb32e2e44f94101d13e7a1e3df05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:49 +0000
Subject: [PATCH 07/57] fix: give an output section the permissions of all its
 parts

---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 0ef7897..760b71c 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -419,6 +419,8 @@ impl<'d> Writer<'d> {
                 section.sh_type = sh.sh_type;
             }
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
+            // the output section has to allow everything its parts need
+            section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
             let chunk =
                 section.add_chunk(data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from));
             (section_ptr, chunk)
-- 
2.43.0


From 86aa54eb097de87cb8c0506adea4c8baea4b1245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:15 +0000
Subject: [PATCH 08/57] fix: refuse sections which are truncated, misaligned or
 named like our own

---
 src/elf.rs | 20 +++++++++++++++-----
 src/lib.rs | 31 ++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 760b71c..48393d7 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -145,6 +145,8 @@ pub struct Writer<'d> {
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
     sections: Vec<SectionPtr<'d>>,
+    // the first sections are not there for the sections of the inputs
+    num_synthetic_sections: usize,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
     // where each symbol is defined
@@ -352,6 +354,7 @@ impl<'d> Writer<'d> {
             eh,
             dyn_rels: vec![],
             plt_rels: vec![],
+            num_synthetic_sections: sections.len(),
             sections,
             // first entry reserved
             got_len: 1,
@@ -386,9 +389,14 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         sh: &goblin::elf::SectionHeader,
         data: Option<Vec<u8>>,
-    ) -> SectionRef<'d> {
-        let entry =
-            self.shstr_section.write().inner_mut::<StringTable>().unwrap().get_or_create(name);
+    ) -> Result<SectionRef<'d>, ErrorType> {
+        let name = name.into();
+        let entry = self
+            .shstr_section
+            .write()
+            .inner_mut::<StringTable>()
+            .unwrap()
+            .get_or_create(name.clone());
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
@@ -408,6 +416,8 @@ impl<'d> Writer<'d> {
             sh.write().add_chunk(chunk);
             self.sections.push(Arc::clone(&sh));
             (sh, 0)
+        } else if entry.index < self.num_synthetic_sections {
+            return Err(ErrorType::Other(format!("section name '{}' is reserved.", &name as &str)));
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
@@ -425,7 +435,7 @@ impl<'d> Writer<'d> {
                 section.add_chunk(data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from));
             (section_ptr, chunk)
         };
-        SectionRef { section, chunk }
+        Ok(SectionRef { section, chunk })
     }
 
     pub fn push_section(
@@ -433,7 +443,7 @@ impl<'d> Writer<'d> {
         name: impl Into<Name>,
         section: &goblin::elf::SectionHeader,
         data: Option<&[u8]>,
-    ) -> SectionRef<'d> {
+    ) -> Result<SectionRef<'d>, ErrorType> {
         let data = data.map(|v| v.to_owned());
         self.add_section(name, section, data)
     }
diff --git a/src/lib.rs b/src/lib.rs
index d82fb17..1269cea 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,7 +12,7 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
     },
 };
@@ -23,7 +23,10 @@ use std::{
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_NULL, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+
+/// There's no use for a larger alignment than this one.
+const MAX_ALIGNMENT: u64 = 1 << 24;
 
 pub struct Input<'p, 'd> {
     path: &'p Path,
@@ -60,11 +63,25 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
-            let section_ref = writer.push_section(
-                name.to_owned(),
-                section,
-                section.file_range().map(|r| &self.input.data[r]),
-            );
+            if section.sh_addralign > MAX_ALIGNMENT
+                || (section.sh_addralign != 0 && !section.sh_addralign.is_power_of_two())
+            {
+                return Err(format!("invalid alignment of section {} '{}'.", i, name))
+                    .map_path_err(self.input.path);
+            }
+            let data = section
+                .file_range()
+                .map(|r| {
+                    self.input
+                        .data
+                        .get(r)
+                        .ok_or_else(|| format!("section {} '{}' is truncated.", i, name))
+                })
+                .transpose()
+                .map_path_err(self.input.path)?;
+            let section_ref = writer
+                .push_section(name.to_owned(), section, data)
+                .map_path_err(self.input.path)?;
             log::trace!(
                 "Section '{}:{}' of {:?} mapped to {:?}",
                 i,
-- 
2.43.0


From b90d6ec8965073524af72a0ab0ebcc53e80e04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:20 +0000
Subject: [PATCH 09/57] fix: refuse relocations and symbols that refer outside
 of their object

---
 src/elf/chunk.rs   |  9 ---------
 src/elf/section.rs |  7 ++++---
 src/lib.rs         | 45 +++++++++++++++++++++++++++++++--------------
 3 files changed, 35 insertions(+), 26 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index a854ef2..80af000 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -27,15 +27,6 @@ impl Chunk {
         Self { zeroes: size, ..Self::new(vec![]) }
     }
 
-    pub fn pad(&mut self, size: u64, fill: Option<u8>) {
-        match fill {
-            Some(fill) if self.zeroes == 0 => {
-                self.data.resize(self.data.len() + size as usize, fill)
-            }
-            _ => self.zeroes += size,
-        }
-    }
-
     pub fn zeroes(&self) -> u64 {
         self.zeroes
     }
diff --git a/src/elf/section.rs b/src/elf/section.rs
index d683572..fefb85a 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -170,9 +170,10 @@ impl<'p> Section<'p> {
     /// Adds some padding after the last chunk.
     pub fn pad(&mut self, size: u64) {
         let fill = if self.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { 0x90 } else { 0 };
-        let in_file = self.sh_type != SHT_NOBITS;
-        if let Some(chunk) = self.chunks.last_mut() {
-            chunk.pad(size, if in_file { Some(fill) } else { None });
+        if self.sh_type == SHT_NOBITS {
+            self.add_chunk(Chunk::zeroed(size));
+        } else {
+            self.add_chunk(vec![fill; size as usize].into());
         }
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index 1269cea..2f9adff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -12,8 +12,10 @@ use goblin::{
     elf64::{
         reloc::Rela,
         section_header::{
-            SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA,
+            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
+        sym::STT_SECTION,
     },
 };
 use std::{
@@ -100,6 +102,15 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         for (i, symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
+            let known = match symbol.st_shndx as u32 {
+                SHN_UNDEF | SHN_ABS | SHN_COMMON => true,
+                i if symbol.st_type() == STT_SECTION => (i as usize) < elf.section_headers.len(),
+                _ => sec_ref.is_some(),
+            };
+            if !known {
+                return Err(format!("symbol '{}' is in an unknown section.", name))
+                    .map_path_err(path);
+            }
             let symbol_ref = writer
                 .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
                 .map_path_err(path)?;
@@ -113,24 +124,30 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn process_relocations(&self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
         let elf = &self.elf;
         for (section_index, rels) in &elf.shdr_relocs {
-            for rel in rels.iter().filter(|r| r.r_sym != 0) {
-                let target = elf.section_headers[*section_index].sh_info as usize;
-                let index = if let Some(sec) = self.section_relocations.get(&target) {
-                    sec.clone()
-                } else {
-                    continue;
-                };
-                let symbol = if let Some(sym) = self.symbols.get(&rel.r_sym) {
-                    sym
-                } else {
-                    continue;
-                };
+            let target = elf.section_headers[*section_index].sh_info as usize;
+            let index = self
+                .section_relocations
+                .get(&target)
+                .ok_or_else(|| format!("no section {} to relocate.", target))
+                .map_path_err(self.input.path)?;
+            for rel in rels.iter() {
+                let symbol = self
+                    .symbols
+                    .get(&rel.r_sym)
+                    .ok_or_else(|| format!("relocation with an unknown symbol {}.", rel.r_sym))
+                    .map_path_err(self.input.path)?;
+                if rel.r_offset >= elf.section_headers[target].sh_size {
+                    return Err(format!("relocation at {:#x} is out of bounds.", rel.r_offset))
+                        .map_path_err(self.input.path);
+                }
                 let rela = Rela {
                     r_offset: rel.r_offset,
                     r_info: ((rel.r_sym << 32) + rel.r_type as usize) as u64,
                     r_addend: rel.r_addend.unwrap_or_default() as i64,
                 };
-                writer.add_relocation(rela, *symbol, index).map_path_err(self.input.path)?;
+                writer
+                    .add_relocation(rela, *symbol, index.clone())
+                    .map_path_err(self.input.path)?;
             }
         }
         Ok(())
-- 
2.43.0


From 41630558b83a16a3b4c4135399a1434e16e1aa94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:21 +0000
Subject: [PATCH 10/57] fix: don't truncate the values of absolute relocations

---
 src/elf/chunk.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 80af000..77de443 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -119,10 +119,8 @@ fn apply_relocation(
     // `stderr` is an object, we will know its address at runtime because
     // we will issue a COPY relocation to make a copy of `stderr` for our binary.
     let s: i64 = match symbol.dynamic() {
-        Some(dyn_sym) if symbol.is_undefined() => {
-            dyn_table.get(dyn_sym).unwrap().st_value.try_into().unwrap()
-        }
-        _ => symbol.st_value.try_into().unwrap(),
+        Some(dyn_sym) if symbol.is_undefined() => dyn_table.get(dyn_sym).unwrap().st_value as i64,
+        _ => symbol.st_value as i64,
     };
     let a = rel.r_addend;
     let p: i64 = (chunk_address + rel.r_offset).try_into().unwrap();
@@ -132,13 +130,12 @@ fn apply_relocation(
     let offset = rel.r_offset as usize;
     match (rel.r_info & 0xffff_ffff) as u32 {
         R_X86_64_NONE => {}
-        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s + a).unwrap(),
+        R_X86_64_64 => (&mut data[offset..]).write_i64::<LittleEndian>(s.wrapping_add(a)).unwrap(),
         R_X86_64_32 => {
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
+            (&mut data[offset..]).write_u32::<LittleEndian>((s + a).try_into().unwrap()).unwrap();
         }
         R_X86_64_32S => {
-            // TODO warn about truncation
-            (&mut data[offset..]).write_i32::<LittleEndian>((s + a) as i32).unwrap()
+            (&mut data[offset..]).write_i32::<LittleEndian>((s + a).try_into().unwrap()).unwrap()
         }
         R_X86_64_PC32 => (&mut data[offset..])
             .write_i32::<LittleEndian>((s + a - p).try_into().unwrap())
-- 
2.43.0


From 9c32f6af62d59bfc0f5109d69de511190954ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:39 +0000
Subject: [PATCH 11/57] fix: relax GOT loads only where possible, and fill in
 the GOT for the others

---
 src/elf.rs              |  9 +++++++++
 src/elf/chunk.rs        | 36 +++++++++++++++++++++++++++++++-----
 src/elf/symbol_table.rs |  5 +++++
 3 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 48393d7..3124556 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -924,6 +924,15 @@ impl<'d> Writer<'d> {
         }
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
+
+        // the loader only fills in the `.got` entries of dynamic symbols
+        for sym in symbols.iter().filter(|s| s.dynamic().is_none()) {
+            if let Some(offset) = sym.got_offset() {
+                self.got_section.write().chunk_mut(0)[offset..offset + size_of::<u64>()]
+                    .copy_from_slice(&sym.st_value.to_le_bytes());
+            }
+        }
+
         for section in
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 77de443..2c8f072 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -3,7 +3,11 @@ use goblin::elf64::{
     header::EM_X86_64,
     reloc::{Rela, *},
 };
-use std::{collections::HashSet, convert::TryInto, io::Write};
+use std::{
+    collections::HashSet,
+    convert::{TryFrom, TryInto},
+    io::Write,
+};
 
 use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
 
@@ -106,6 +110,18 @@ impl std::ops::DerefMut for Chunk {
     }
 }
 
+/// Whether the operand at `offset` is the one of `call *foo@GOTPCREL(%rip)`, or
+/// `jmp *foo@GOTPCREL(%rip)`.
+fn is_indirect_branch(data: &[u8], offset: usize) -> bool {
+    offset >= 2 && matches!(data[offset - 2..offset], [0xff, 0x15] | [0xff, 0x25])
+}
+
+/// Whether the operand at `offset` is the one of `mov foo@GOTPCREL(%rip),%reg`.
+fn is_got_load(data: &[u8], offset: usize) -> bool {
+    offset >= 3
+        && matches!(data[offset - 3..offset], [0x48 | 0x4c, 0x8b, modrm] if modrm & 0xc7 == 0x05)
+}
+
 fn apply_relocation(
     chunk_address: u64,
     data: &mut [u8],
@@ -146,11 +162,17 @@ fn apply_relocation(
                 .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
                 .unwrap()
         }
-        R_X86_64_GOTPCRELX if symbol.dynamic().is_none() => {
+        R_X86_64_GOTPCRELX
+            if symbol.dynamic().is_none()
+                && a == -4
+                && is_indirect_branch(data, offset)
+                && i32::try_from(s + a - p + 1).is_ok() =>
+        {
             // -2 because the offset points to where we need to patch, but we want to
             // match the other two bytes to tell which instruction we're patching
             let buf = &mut data[offset - 2..];
-            let value: i32 = (s + a - p).try_into().unwrap();
+            // +1 because the operand of the new instruction starts one byte earlier
+            let value: i32 = (s + a - p + 1).try_into().unwrap();
             match buf[..2] {
                 // call *foo@GOTPCREL(%rip) -> call foo nop
                 [0xff, 0x15] => {
@@ -167,13 +189,17 @@ fn apply_relocation(
                 ref x => unreachable!("{:?}", x),
             }
         }
-        R_X86_64_GOTPCRELX => {
+        R_X86_64_GOTPCREL | R_X86_64_GOTPCRELX => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
             let value: i32 = (g + got + a - p).try_into().unwrap();
             (&mut data[offset..]).write_i32::<LittleEndian>(value).unwrap();
         }
         R_X86_64_REX_GOTPCRELX => {
-            if symbol.dynamic().is_none() {
+            if symbol.dynamic().is_none()
+                && a == -4
+                && is_got_load(data, offset)
+                && i32::try_from(s + a - p).is_ok()
+            {
                 let buf = &mut data[offset - 3..];
                 let instr = match buf[..3] {
                     [0x48, 0x8b, 0x05] => [0x48, 0x8d, 0x05], // mov 0x0(%rip),%rax -> lea 0x0(%rip),%rax
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index c831697..acc888f 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -199,6 +199,11 @@ impl<'p> SymbolTable<'p> {
         &self.symbols
     }
 
+    /// All symbols, in no particular order.
+    pub fn iter(&self) -> impl Iterator<Item = &Symbol<'p>> {
+        self.symbols.values().chain(&self.locals).chain(self.section_syms.values().flatten())
+    }
+
     pub fn named_mut(&mut self) -> &mut HashMap<u32, Symbol<'p>> {
         &mut self.symbols
     }
-- 
2.43.0


From 64ee02c8a66811f5186913f1754ef40455ddc6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:00 +0000
Subject: [PATCH 12/57] fix: make GOT32 relocations relative to the global
 offset table

---
 src/elf.rs       | 9 ++++++++-
 src/elf/chunk.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 3124556..031a6a2 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -913,6 +913,7 @@ impl<'d> Writer<'d> {
     fn handle_relocations(&mut self) {
         let got_address = self.got_address();
         let plt_address = self.plt_address();
+        let got_plt_address = self.got_plt_address();
         let sh_names = [self.sym_section.read().sh_name, self.dyn_sym_section.read().sh_name];
 
         // first patch symbol values
@@ -937,7 +938,13 @@ impl<'d> Writer<'d> {
             &mut self.sections.iter_mut().skip(1).filter(|s| !sh_names.contains(&s.read().sh_name))
         {
             for chunk in section.write().chunks_mut() {
-                chunk.apply_relocations(got_address, plt_address, &symbols, &dyn_symbols);
+                chunk.apply_relocations(
+                    got_address,
+                    plt_address,
+                    got_plt_address,
+                    &symbols,
+                    &dyn_symbols,
+                );
             }
         }
     }
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 2c8f072..95d15f5 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -64,6 +64,7 @@ impl Chunk {
         &mut self,
         got_address: u64,
         plt_address: u64,
+        got_plt_address: u64,
         table: &SymbolTable,
         dyn_table: &SymbolTable,
     ) {
@@ -77,6 +78,7 @@ impl Chunk {
                 dyn_table,
                 got_address,
                 plt_address,
+                got_plt_address,
             );
         }
     }
@@ -130,6 +132,7 @@ fn apply_relocation(
     dyn_table: &SymbolTable,
     got_address: u64,
     plt_address: u64,
+    got_plt_address: u64,
 ) {
     // e.g. `stderr` will be undefined, but we might reference it. Since
     // `stderr` is an object, we will know its address at runtime because
@@ -158,8 +161,11 @@ fn apply_relocation(
             .unwrap(),
         R_X86_64_GOT32 => {
             let g: i64 = symbol.got_offset().unwrap().try_into().unwrap();
+            // relative to `_GLOBAL_OFFSET_TABLE_`
             (&mut data[offset..])
-                .write_i32::<LittleEndian>((g + got + a - p).try_into().unwrap())
+                .write_i32::<LittleEndian>(
+                    (g + got + a - got_plt_address as i64).try_into().unwrap(),
+                )
                 .unwrap()
         }
         R_X86_64_GOTPCRELX
-- 
2.43.0


From 1121457c9b9ab1dac5fac4bdcf3dd19daccb43f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:59 +0000
Subject: [PATCH 13/57] fix: link each archive member once, when it is the
 first to define a symbol

---
 src/elf.rs |   4 ++
 src/lib.rs | 116 ++++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 84 insertions(+), 36 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 031a6a2..5d721cb 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -533,6 +533,10 @@ impl<'d> Writer<'d> {
         }
     }
 
+    pub fn is_undefined(&self, sym: SymbolRef) -> bool {
+        as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_undefined())
+    }
+
     pub fn undefined_symbols(&self) -> Vec<SymbolRef> {
         let mut undefined = vec![];
         let symbols = as_sym_tab(&self.sym_section);
diff --git a/src/lib.rs b/src/lib.rs
index 2f9adff..39f1f82 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -7,7 +7,7 @@ mod utils;
 
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
-    archive::Archive,
+    archive::{Archive, Index, Member, MAGIC},
     elf::Elf,
     elf64::{
         reloc::Rela,
@@ -21,6 +21,7 @@ use goblin::{
 use std::{
     collections::{HashMap, HashSet},
     fs::read,
+    ops::Range,
     path::{Path, PathBuf},
 };
 
@@ -154,6 +155,54 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     }
 }
 
+/// An archive, and the members of it which haven't been linked yet.
+struct LazyArchive<'p> {
+    path: &'p Path,
+    data: Vec<u8>,
+    /// Mapping from a symbol to the offset of the first member that defines it.
+    symbols: HashMap<String, u64>,
+    members: HashMap<u64, Range<usize>>,
+}
+
+impl<'p> LazyArchive<'p> {
+    fn new(path: &'p Path) -> Result<Self, Error<'p>> {
+        let data = read(path).map_path_err(path)?;
+        let ar = Archive::parse(&data).map_path_err(path)?;
+        let mut symbols = HashMap::new();
+        let mut members = HashMap::new();
+        for member in (0..ar.len()).filter_map(|i| ar.get_at(i)) {
+            let start = member.offset as usize;
+            let range = start..start + member.size();
+            if range.end > data.len() {
+                return Err(format!("member '{}' is truncated.", member.extended_name()))
+                    .map_path_err(path);
+            }
+            members.insert(member.header_offset, range);
+        }
+        // we can't use `member_of_symbol` since that gives us the last member
+        if let Ok(first) = Member::parse(&data, &mut MAGIC.len()) {
+            if first.raw_name().trim_end() == "/" {
+                let start = first.offset as usize;
+                let index = Index::parse_sysv_index(&data[start..start + first.size()])
+                    .map_path_err(path)?;
+                for (name, offset) in index.strtab.iter().zip(index.symbol_indexes) {
+                    symbols.entry(name.to_string()).or_insert(offset as u64);
+                }
+            } else {
+                for (_, member, names) in ar.summarize() {
+                    symbols.extend(names.iter().map(|n| (n.to_string(), member.header_offset)));
+                }
+            }
+        }
+        Ok(Self { path, symbols, members, data })
+    }
+
+    /// Where the member that defines `symbol` is, unless it has already been taken.
+    fn take_member(&mut self, symbol: &str) -> Option<Range<usize>> {
+        self.members.remove(self.symbols.get(symbol)?)
+    }
+}
+
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
@@ -192,42 +241,35 @@ impl Linker {
         Ok(undefines.into_iter().map(|(k, _)| k).collect())
     }
 
+    /// Links the members that define `symbols`. Returns whether there were any.
     fn process_archives_containing<'o>(
         &'o self,
+        archives: &mut [LazyArchive<'o>],
         symbols: &[elf::SymbolRef],
         writer: &mut elf::Writer<'o>,
-    ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
-        for ar in &self.archives {
-            let path = ar.as_path();
-            let data = read(path).map_path_err(path)?;
-            let ar = Archive::parse(&data).map_path_err(path)?;
-            let mut members = HashSet::new();
-            for entry in &mut undefines {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
-                    name
-                } else {
+    ) -> Result<bool, Error<'o>> {
+        let mut found = false;
+        for ar in archives {
+            for symbol in symbols {
+                // the symbol might be defined by one of the members we've just linked
+                if !writer.is_undefined(*symbol) {
                     continue;
-                };
-                if let Some(member) = ar.member_of_symbol(&*name) {
-                    *entry.1 = true;
-                    members.insert(member);
+                }
+                let member = writer.symbol_name(*symbol).and_then(|name| ar.take_member(&*name));
+                if let Some(member) = member {
+                    found = true;
+                    let input = Input { path: ar.path, data: &ar.data[member] };
+                    let mut elf = input
+                        .to_elf_object()?
+                        .ok_or(ErrorType::NotAnElf)
+                        .map_path_err(input.path)?;
+                    elf.process_sections(writer)?;
+                    elf.process_symbols(writer)?;
+                    elf.process_relocations(writer)?;
                 }
             }
-            for member in members {
-                let object = ar.get(member).unwrap();
-                let object_data =
-                    &data[(object.offset as usize)..(object.offset as usize + object.size())];
-                let input = Input { path, data: object_data };
-                let mut elf = input.to_elf_object()?.unwrap();
-                elf.process_sections(writer)?;
-                elf.process_symbols(writer)?;
-                elf.process_relocations(writer)?;
-            }
-            undefines.retain(|_, found| !*found);
         }
-        Ok(undefines.into_iter().map(|(k, _)| k).collect())
+        Ok(found)
     }
 
     pub fn link(&self) -> Result<(), Error<'_>> {
@@ -255,15 +297,17 @@ impl Linker {
             elf.process_symbols(&mut writer)?;
             elf.process_relocations(&mut writer)?;
         }
-        let mut undefined = writer.undefined_symbols();
+        let mut archives = self
+            .archives
+            .iter()
+            .map(|path| LazyArchive::new(path))
+            .collect::<Result<Vec<_>, Error<'_>>>()?;
         loop {
-            let undefined_next = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
-            let undefined_next = self.process_archives_containing(&undefined_next, &mut writer)?;
-            // if the length doesn't change, it means we haven't found any of our symbols
-            if undefined.len() == undefined_next.len() {
+            let undefined = writer.undefined_symbols();
+            let undefined = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
+            // if there are no new objects, it means we haven't found any of our symbols
+            if !self.process_archives_containing(&mut archives, &undefined, &mut writer)? {
                 break;
-            } else {
-                undefined = writer.undefined_symbols();
             }
         }
         writer.compute_sections();
-- 
2.43.0


From 83eb73ced4b06253c2f9db226875f95ca07ef6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:27 +0000
Subject: [PATCH 14/57] fix: search the directories and archives in the order
 of the command line

---
 src/lib.rs  |  4 ++--
 src/main.rs | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 39f1f82..d529af4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,7 +19,7 @@ use goblin::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet},
+    collections::HashMap,
     fs::read,
     ops::Range,
     path::{Path, PathBuf},
@@ -206,7 +206,7 @@ impl<'p> LazyArchive<'p> {
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
-    pub archives: HashSet<PathBuf>,
+    pub archives: Vec<PathBuf>,
 }
 
 impl Linker {
diff --git a/src/main.rs b/src/main.rs
index 45d6b40..230b4bf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{collections::HashSet, io::Read, path::PathBuf, str::FromStr};
+use std::{io::Read, path::PathBuf, str::FromStr};
 
 mod linker_script;
 
@@ -31,8 +31,8 @@ OPTIONS:
 struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
-    archives: HashSet<PathBuf>,
-    search_paths: HashSet<PathBuf>,
+    archives: Vec<PathBuf>,
+    search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
     inputs: Vec<(PathBuf, bool)>,
     help: bool,
@@ -148,7 +148,7 @@ fn handle_linker_args(
             "-L" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-L'.".to_string())?;
-                app.search_paths.insert(path.into());
+                app.search_paths.push(path.into());
                 continue;
             }
             "-l" => {
@@ -179,7 +179,7 @@ fn handle_linker_args(
             }
         }
         if let Some(arg) = arg.strip_prefix("-L") {
-            app.search_paths.insert(PathBuf::from(arg).canonicalize().unwrap());
+            app.search_paths.push(PathBuf::from(arg));
         } else if let Some(lib) = arg.strip_prefix("-l") {
             app.inputs.push((lib.into(), app.as_needed));
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
@@ -197,11 +197,11 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
         if lib.exists() && lib.is_file() {
             found = Some(lib.clone());
         }
-        for kind in ["so", "a"] {
+        for dir in &args.search_paths {
             if found.is_some() {
                 break;
             }
-            for dir in &args.search_paths {
+            for kind in ["so", "a"] {
                 let p = dir.join(&lib);
                 if p.exists() && p.is_file() {
                     found = Some(p);
@@ -210,6 +210,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                 let input = dir.join(format!("lib{}.{}", lib.display(), kind));
                 if input.exists() && input.is_file() {
                     found = Some(input);
+                    break;
                 }
             }
         }
@@ -220,7 +221,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     args.objects.push(lib.canonicalize().unwrap());
                 }
                 FileType::Archive => {
-                    args.archives.insert(lib.canonicalize().unwrap());
+                    let archive = lib.canonicalize().unwrap();
+                    if !args.archives.contains(&archive) {
+                        args.archives.push(archive);
+                    }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
                 FileType::Text => args.scripts.push(lib),
-- 
2.43.0


From 37192e44cddb2e13be964ed776a75ece40188a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:00 +0000
Subject: [PATCH 15/57] fix: don't mistake files for libraries given with -l

---
 src/main.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 230b4bf..5571c94 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -34,11 +34,25 @@ struct AppArgs {
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
     scripts: Vec<PathBuf>,
-    inputs: Vec<(PathBuf, bool)>,
+    inputs: Vec<Input>,
     help: bool,
     as_needed: bool,
 }
 
+#[derive(Debug)]
+struct Input {
+    path: PathBuf,
+    as_needed: bool,
+    /// Whether it was given with `-l`.
+    is_library: bool,
+}
+
+impl AppArgs {
+    fn add_input(&mut self, path: impl Into<PathBuf>, is_library: bool) {
+        self.inputs.push(Input { path: path.into(), as_needed: self.as_needed, is_library });
+    }
+}
+
 fn main() -> Result<(), String> {
     env_logger::init();
     let mut args = parse_args()?;
@@ -154,7 +168,7 @@ fn handle_linker_args(
             "-l" => {
                 let path =
                     args.next().ok_or_else(|| "Missing argument <PATH> for '-l'.".to_string())?;
-                app.inputs.push((path.into(), app.as_needed));
+                app.add_input(path, true);
                 continue;
             }
             "-z" => {
@@ -181,20 +195,20 @@ fn handle_linker_args(
         if let Some(arg) = arg.strip_prefix("-L") {
             app.search_paths.push(PathBuf::from(arg));
         } else if let Some(lib) = arg.strip_prefix("-l") {
-            app.inputs.push((lib.into(), app.as_needed));
+            app.add_input(lib, true);
         } else if let Some(arg) = arg.strip_prefix("--hash-style=") {
             app.opts.hash_style = HashStyle::from_str(arg)?;
         } else {
-            app.inputs.push((arg.into(), app.as_needed));
+            app.add_input(arg, false);
         }
     }
     Ok(())
 }
 
 fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for (lib, as_needed) in args.inputs.drain(..) {
+    for Input { path: lib, as_needed, is_library } in args.inputs.drain(..) {
         let mut found = None;
-        if lib.exists() && lib.is_file() {
+        if !is_library && lib.exists() && lib.is_file() {
             found = Some(lib.clone());
         }
         for dir in &args.search_paths {
@@ -203,12 +217,12 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
             }
             for kind in ["so", "a"] {
                 let p = dir.join(&lib);
-                if p.exists() && p.is_file() {
+                if !is_library && p.exists() && p.is_file() {
                     found = Some(p);
                     break;
                 }
                 let input = dir.join(format!("lib{}.{}", lib.display(), kind));
-                if input.exists() && input.is_file() {
+                if is_library && input.exists() && input.is_file() {
                     found = Some(input);
                     break;
                 }
-- 
2.43.0


From 0aed6ba64af799e7331365d1b7258185e74814ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:01 +0000
Subject: [PATCH 16/57] fix: accept the documented spelling of --hash-style

---
 src/main.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 5571c94..7ca8647 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -144,6 +144,13 @@ fn handle_linker_args(
                 app.opts.output = out.into();
                 continue;
             }
+            "--hash-style" => {
+                let style = args
+                    .next()
+                    .ok_or_else(|| "Missing argument <STYLE> for '--hash-style'.".to_string())?;
+                app.opts.hash_style = HashStyle::from_str(&style)?;
+                continue;
+            }
             "--eh-frame-hdr" => {
                 app.opts.eh_frame_hdr = true;
                 continue;
-- 
2.43.0


From 69786f56727a56f28b178c4318fb08fc36ca4680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:23 +0000
Subject: [PATCH 17/57] fix: process linker scripts in place, and refuse those
 we can't parse

---
 src/linker_script.rs | 18 +++++++++++-----
 src/main.rs          | 50 +++++++++++++++++++++++++++++++-------------
 2 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index afeb65b..6ce3ca0 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -22,7 +22,8 @@ where
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
-pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<String>>
+/// The arguments of each AS_NEEDED block are kept apart from the other ones.
+pub fn parse_group_command<Input>() -> impl Parser<Input, Output = Vec<Vec<String>>>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
@@ -32,7 +33,7 @@ where
         sep_end_by(parse_as_needed_command().or(parse_arg().map(|v| vec![v])), skip_many(space())),
     );
     (string("GROUP"), skip_many(space()), between(char('('), char(')'), args))
-        .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1.into_iter().flatten().collect())
+        .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1)
 }
 
 /// Parses an AS_NEEDED block like: AS_NEEDED ( foo.so )
@@ -52,7 +53,7 @@ where
 }
 
 /// Parses a OUTPUT_FORMAT command like: OUTPUT_FORMAT(elf64-x86-64)
-pub fn parse_output_format_command<Input>() -> impl Parser<Input, Output = Vec<String>>
+pub fn parse_output_format_command<Input>() -> impl Parser<Input, Output = Vec<Vec<String>>>
 where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
@@ -63,7 +64,12 @@ where
         .map(|(_, _, _): (_, _, (_, String, _))| vec![])
 }
 
-pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
+#[cfg(test)]
+pub fn parse(input: &str) -> Result<Vec<String>, StringStreamError> {
+    parse_inputs(input).map(|args| args.into_iter().flatten().collect())
+}
+
+pub fn parse_inputs(mut input: &str) -> Result<Vec<Vec<String>>, StringStreamError> {
     let mut new_args = vec![];
     let skip_ws_and_comments =
         skip_many(skip_many1(space()).or(parse_comment()).or(char('\n').map(|_| ())));
@@ -76,7 +82,9 @@ pub fn parse(mut input: &str) -> Result<Vec<String>, StringStreamError> {
         if let Some(args) = args {
             new_args.extend(args);
         }
-        if !leftover.is_empty() {
+        if leftover.len() == input.len() && !input.is_empty() {
+            return Err(StringStreamError::UnexpectedParse);
+        } else if !leftover.is_empty() {
             input = leftover;
         } else {
             break;
diff --git a/src/main.rs b/src/main.rs
index 7ca8647..707a0c9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -33,6 +33,7 @@ struct AppArgs {
     objects: Vec<PathBuf>,
     archives: Vec<PathBuf>,
     search_paths: Vec<PathBuf>,
+    /// The scripts which list the current inputs.
     scripts: Vec<PathBuf>,
     inputs: Vec<Input>,
     help: bool,
@@ -55,18 +56,11 @@ impl AppArgs {
 
 fn main() -> Result<(), String> {
     env_logger::init();
-    let mut args = parse_args()?;
+    let args = parse_args()?;
     if args.help {
         println!("{}", HELP);
         return Ok(());
     }
-    while let Some(script) = args.scripts.pop() {
-        let new_args = linker_script::parse(&std::fs::read_to_string(script).unwrap()).unwrap();
-        if !new_args.is_empty() {
-            handle_linker_args(&mut new_args.into_iter().peekable(), &mut args)?;
-            let _ = search_for_inputs(&mut args);
-        }
-    }
     log::debug!("{:#?}", args);
     let linker = dld::Linker { options: args.opts, objects: args.objects, archives: args.archives };
     if let Err(e) = linker.link() {
@@ -109,7 +103,7 @@ fn parse_args() -> Result<AppArgs, String> {
     let _ = args.next();
     let mut app = Default::default();
     handle_linker_args(&mut args, &mut app)?;
-    search_for_inputs(&mut app).map_err(|e| format!("Couldn't find library {}", e.display()))?;
+    search_for_inputs(&mut app)?;
     Ok(app)
 }
 
@@ -212,8 +206,36 @@ fn handle_linker_args(
     Ok(())
 }
 
-fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
-    for Input { path: lib, as_needed, is_library } in args.inputs.drain(..) {
+/// Adds the inputs listed in `script` as if they were given instead of it.
+fn process_script(
+    script: &std::path::Path,
+    as_needed: bool,
+    args: &mut AppArgs,
+) -> Result<(), String> {
+    let error = |e: String| format!("`{}`: {}", script.display(), e);
+    let path = script.canonicalize().map_err(|e| error(e.to_string()))?;
+    if args.scripts.contains(&path) {
+        return Err(error("linker script includes itself.".into()));
+    }
+    let text = std::fs::read_to_string(&path).map_err(|e| error(e.to_string()))?;
+    for inputs in linker_script::parse_inputs(&text).map_err(|e| error(e.to_string()))? {
+        if let Some(arg) = inputs
+            .iter()
+            .find(|i| i.starts_with('-') && !i.starts_with("-l") && i.as_str() != "--as-needed")
+        {
+            return Err(error(format!("unexpected '{}' in linker script.", arg)));
+        }
+        args.as_needed = as_needed;
+        handle_linker_args(&mut inputs.into_iter().peekable(), args)?;
+    }
+    args.scripts.push(path);
+    search_for_inputs(args)?;
+    args.scripts.pop();
+    Ok(())
+}
+
+fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
+    for Input { path: lib, as_needed, is_library } in std::mem::take(&mut args.inputs) {
         let mut found = None;
         if !is_library && lib.exists() && lib.is_file() {
             found = Some(lib.clone());
@@ -236,7 +258,7 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
             }
         }
         if let Some(lib) = found.take() {
-            let file_type = file_type(&lib).unwrap();
+            let file_type = file_type(&lib).map_err(|e| format!("`{}`: {}", lib.display(), e))?;
             match file_type {
                 FileType::ElfObject => {
                     args.objects.push(lib.canonicalize().unwrap());
@@ -248,10 +270,10 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), PathBuf> {
                     }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
-                FileType::Text => args.scripts.push(lib),
+                FileType::Text => process_script(&lib, as_needed, args)?,
             }
         } else {
-            return Err(lib);
+            return Err(format!("Couldn't find library {}", lib.display()));
         }
     }
     Ok(())
-- 
2.43.0


From 4b4dd873d6af222686e477f3ff965f31bd8aaa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:13 +0000
Subject: [PATCH 18/57] fix: parse comments and names of linker scripts
 wherever they may be

---
 src/linker_script.rs | 49 ++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/linker_script.rs b/src/linker_script.rs
index 6ce3ca0..43088b2 100644
--- a/src/linker_script.rs
+++ b/src/linker_script.rs
@@ -1,8 +1,21 @@
 use combine::error::{ParseError, StringStreamError};
 use combine::parser::char::{alpha_num, char, space, string};
+use combine::parser::combinator::not_followed_by;
 use combine::parser::repeat::skip_until;
+use combine::parser::token::one_of;
 use combine::stream::Stream;
-use combine::{between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser};
+use combine::{
+    attempt, between, choice, many1, optional, sep_end_by, skip_many, skip_many1, Parser,
+};
+
+/// Parses a slash, unless it starts a comment.
+fn slash<Input>() -> impl Parser<Input, Output = char>
+where
+    Input: Stream<Token = char>,
+    Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
+{
+    char('/').skip(not_followed_by(char('*')))
+}
 
 /// Parses an argument like: 'foo.so' or `/lib/foo.so'.
 pub fn parse_arg<Input>() -> impl Parser<Input, Output = String>
@@ -10,7 +23,7 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    many1(choice((alpha_num(), char('-'), char('.'), char('_'), char('/'))))
+    many1(choice((alpha_num(), one_of("-._+~@".chars()), attempt(slash()))))
 }
 /// Parses a comment like: /* hey \n second line */
 pub fn parse_comment<Input>() -> impl Parser<Input, Output = ()>
@@ -18,7 +31,16 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    between(string("/*"), string("*/"), skip_until(string("*/")))
+    between(attempt(string("/*")), string("*/"), skip_until(attempt(string("*/"))))
+}
+
+/// Parses the comments and white space between two tokens.
+pub fn skip_ws_and_comments<Input>() -> impl Parser<Input, Output = ()>
+where
+    Input: Stream<Token = char>,
+    Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
+{
+    skip_many(skip_many1(space()).or(parse_comment()))
 }
 
 /// Parses a GROUP command like: GROUP ( libgcc_s.so.1 -lgcc )
@@ -29,10 +51,13 @@ where
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
     let args = (
-        skip_many(space()),
-        sep_end_by(parse_as_needed_command().or(parse_arg().map(|v| vec![v])), skip_many(space())),
+        skip_ws_and_comments(),
+        sep_end_by(
+            attempt(parse_as_needed_command()).or(parse_arg().map(|v| vec![v])),
+            skip_ws_and_comments(),
+        ),
     );
-    (string("GROUP"), skip_many(space()), between(char('('), char(')'), args))
+    (string("GROUP"), skip_ws_and_comments(), between(char('('), char(')'), args))
         .map(|(_, _, s): (_, _, ((), Vec<Vec<String>>))| s.1)
 }
 
@@ -42,8 +67,8 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    let args = (skip_many(space()), sep_end_by(parse_arg(), skip_many(space())));
-    (string("AS_NEEDED"), skip_many(space()), between(char('('), char(')'), args)).map(
+    let args = (skip_ws_and_comments(), sep_end_by(parse_arg(), skip_ws_and_comments()));
+    (string("AS_NEEDED"), skip_ws_and_comments(), between(char('('), char(')'), args)).map(
         |(_, _, s): (_, _, (_, Vec<String>))| {
             let mut v: Vec<String> = vec!["--as-needed".into()];
             v.extend(s.1);
@@ -58,8 +83,8 @@ where
     Input: Stream<Token = char>,
     Input::Error: ParseError<Input::Token, Input::Range, Input::Position>,
 {
-    let args = (skip_many(space()), parse_arg(), skip_many(space()));
-    (string("OUTPUT_FORMAT"), skip_many(space()), between(char('('), char(')'), args))
+    let args = (skip_ws_and_comments(), parse_arg(), skip_ws_and_comments());
+    (string("OUTPUT_FORMAT"), skip_ws_and_comments(), between(char('('), char(')'), args))
         // TODO: handle output format argument
         .map(|(_, _, _): (_, _, (_, String, _))| vec![])
 }
@@ -71,10 +96,8 @@ pub fn parse(input: &str) -> Result<Vec<String>, StringStreamError> {
 
 pub fn parse_inputs(mut input: &str) -> Result<Vec<Vec<String>>, StringStreamError> {
     let mut new_args = vec![];
-    let skip_ws_and_comments =
-        skip_many(skip_many1(space()).or(parse_comment()).or(char('\n').map(|_| ())));
     let mut line = (
-        skip_ws_and_comments,
+        skip_ws_and_comments(),
         optional(choice((parse_group_command(), parse_output_format_command()))),
     );
     loop {
-- 
2.43.0


From 63be36b66a883e2a9b7159c1373cb72529d675a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:59 +0000
Subject: [PATCH 19/57] fix: import only what the libraries define and record
 the needed ones by soname

---
 src/elf.rs | 19 ++++++++++---------
 src/lib.rs | 55 ++++++++++++++++++++++++++++++++++++------------------
 2 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 5d721cb..bc20047 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -206,7 +206,7 @@ impl<'d> Writer<'d> {
             sh_flags: SHF_ALLOC as u64,
             ..Default::default()
         };
-        let mut dyn_sym_names = StringTable::default();
+        let dyn_sym_names = StringTable::default();
         let loader = options
             .dynamic_linker
             .to_str()
@@ -216,9 +216,6 @@ impl<'d> Writer<'d> {
             .copied()
             .chain(std::iter::once(0))
             .collect::<Vec<u8>>();
-        let interp_entry = dyn_sym_names.get_or_create(
-            options.dynamic_linker.file_name().unwrap().to_str().unwrap().to_string(),
-        );
         let interp_section = Section::new(SectionHeader {
             sh_name: section_names.get_or_create(".interp").offset as u32,
             sh_type: SHT_PROGBITS,
@@ -360,7 +357,7 @@ impl<'d> Writer<'d> {
             got_len: 1,
             got_plt: Default::default(),
             definitions: Default::default(),
-            dyn_entries: vec![(DynTag::Needed, interp_entry.offset as u64)],
+            dyn_entries: vec![],
             program_headers: vec![],
             p_vaddr: 0x200000,
             start_p_vaddr: 0x200000,
@@ -537,17 +534,20 @@ impl<'d> Writer<'d> {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_undefined())
     }
 
-    pub fn undefined_symbols(&self) -> Vec<SymbolRef> {
+    /// Returns the undefined symbols in the order in which they were first mentioned. It's fine
+    /// for weak ones to stay undefined.
+    pub fn undefined_symbols(&self, with_weak: bool) -> Vec<SymbolRef> {
         let mut undefined = vec![];
         let symbols = as_sym_tab(&self.sym_section);
         for (st_name, sym) in symbols.named().iter() {
             if sym.st_shndx as u32 == SHN_UNDEF
-                && (sym.is_global() || sym.is_weak())
+                && (sym.is_global() || (sym.is_weak() && with_weak))
                 && sym.dynamic().is_none()
             {
                 undefined.push(SymbolRef::Named(*st_name));
             }
         }
+        undefined.sort_unstable_by_key(|s| s.st_name());
         undefined
     }
 
@@ -590,8 +590,9 @@ impl<'d> Writer<'d> {
             .inner_mut::<StringTable>()
             .unwrap()
             .get_or_create(so_name.to_string());
-        if entry.new {
-            self.dyn_entries.push((DynTag::Needed, entry.offset as u64));
+        let offset = entry.offset as u64;
+        if !self.dyn_entries.iter().any(|(t, o)| matches!(t, DynTag::Needed) && *o == offset) {
+            self.dyn_entries.push((DynTag::Needed, offset));
         }
     }
 
diff --git a/src/lib.rs b/src/lib.rs
index d529af4..04c4afb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -15,7 +15,7 @@ use goblin::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA,
             SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::STT_SECTION,
+        sym::{STB_LOCAL, STT_SECTION},
     },
 };
 use std::{
@@ -210,35 +210,48 @@ pub struct Linker {
 }
 
 impl Linker {
+    /// Returns the symbols that are not defined by any of the libraries. The others are going to
+    /// be imported, if `import` is set.
     fn find_undefined_symbols_in_libs<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
+        import: bool,
         writer: &mut elf::Writer<'o>,
     ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
-        let mut undefines =
-            symbols.iter().map(|s| (*s, false)).collect::<HashMap<elf::SymbolRef, bool>>();
-        for (lib, _) in &self.options.shared_libs {
+        let mut undefines = symbols.to_vec();
+        for (lib, as_needed) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
-            let elf = Elf::parse(&data).unwrap();
-            for entry in undefines.iter_mut().filter(|(_, v)| !**v) {
-                let name = if let Some(name) = writer.symbol_name(*entry.0) {
+            let elf = Elf::parse(&data).map_path_err(path)?;
+            let mut definitions = HashMap::new();
+            for sym in elf.dynsyms.iter().filter(|s| is_exported(s)) {
+                let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
+                definitions.entry(name).or_insert(sym);
+            }
+            let mut needed = !as_needed;
+            let mut not_found = vec![];
+            for symbol in undefines {
+                let name = if let Some(name) = writer.symbol_name(symbol) {
                     name.to_string()
                 } else {
                     continue;
                 };
-                for sym in &elf.dynsyms {
-                    let inner_name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
-                    if name == inner_name {
-                        *entry.1 = true;
-                        writer.add_dyn_symbol(sym.into(), inner_name, path).map_path_err(path)?;
-                        writer.add_needed(path.file_name().unwrap().to_str().unwrap());
+                if let Some(sym) = definitions.get(name.as_str()) {
+                    needed = true;
+                    if import {
+                        writer.add_dyn_symbol((*sym).into(), &name, path).map_path_err(path)?;
                     }
+                } else {
+                    not_found.push(symbol);
                 }
             }
-            undefines.retain(|_, found| !*found);
+            if import && needed {
+                let file_name = path.file_name().unwrap().to_str().unwrap();
+                writer.add_needed(elf.soname.unwrap_or(file_name));
+            }
+            undefines = not_found;
         }
-        Ok(undefines.into_iter().map(|(k, _)| k).collect())
+        Ok(undefines)
     }
 
     /// Links the members that define `symbols`. Returns whether there were any.
@@ -303,15 +316,17 @@ impl Linker {
             .map(|path| LazyArchive::new(path))
             .collect::<Result<Vec<_>, Error<'_>>>()?;
         loop {
-            let undefined = writer.undefined_symbols();
-            let undefined = self.find_undefined_symbols_in_libs(&undefined, &mut writer)?;
+            let undefined = writer.undefined_symbols(false);
+            let undefined = self.find_undefined_symbols_in_libs(&undefined, false, &mut writer)?;
             // if there are no new objects, it means we haven't found any of our symbols
             if !self.process_archives_containing(&mut archives, &undefined, &mut writer)? {
                 break;
             }
         }
+        let undefined = writer.undefined_symbols(true);
+        self.find_undefined_symbols_in_libs(&undefined, true, &mut writer)?;
         writer.compute_sections();
-        let undefined = writer.undefined_symbols();
+        let undefined = writer.undefined_symbols(false);
         if !undefined.is_empty() {
             let names = undefined
                 .iter()
@@ -325,6 +340,10 @@ impl Linker {
     }
 }
 
+fn is_exported(sym: &goblin::elf::Sym) -> bool {
+    sym.st_shndx != SHN_UNDEF as usize && sym.st_bind() != STB_LOCAL
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From 932d71f5783dccb5c98edeb06a464e7ce012c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:17 +0000
Subject: [PATCH 20/57] fix: give copied objects their own, aligned, place in
 memory

---
 src/elf.rs          |  9 ++++++++-
 src/elf/copy_rel.rs | 11 ++++++++---
 src/symbol.rs       | 10 ++++++++++
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index bc20047..7169593 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -495,6 +495,8 @@ impl<'d> Writer<'d> {
         name: &'s str,
         reference: &'d Path,
     ) -> Result<Option<SymbolRef>, ErrorType> {
+        // where the symbol is in the library is all we know about its alignment
+        let alignment = 1 << elf_sym.st_value.trailing_zeros().min(PAGE_ALIGNMENT.trailing_zeros());
         elf_sym.st_shndx = SHN_UNDEF as u16;
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
@@ -505,6 +507,9 @@ impl<'d> Writer<'d> {
             self.dyn_sym_section.write().inner_mut::<SymbolTable<'d>>().unwrap(),
         );
         if let Ok((dyn_ref, _)) = r {
+            if let Some(sym) = as_mut_sym_tab(&self.dyn_sym_section).get_mut(dyn_ref) {
+                sym.set_alignment(alignment);
+            }
             if let Some(entry) =
                 self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
             {
@@ -884,7 +889,7 @@ impl<'d> Writer<'d> {
                         .write()
                         .inner_mut::<CopyRel>()
                         .unwrap()
-                        .insert(dyn_sym, size);
+                        .insert(dyn_sym, size, dyn_symbol.alignment());
                     self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
                     dyn_symbol.st_value = offset;
                 }
@@ -893,6 +898,8 @@ impl<'d> Writer<'d> {
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            // now we know how big the section is
+            self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
             self.plt_rel_section.write().sh_size = (self.plt_rels.len() * size_of::<Rela>()) as u64;
 
diff --git a/src/elf/copy_rel.rs b/src/elf/copy_rel.rs
index 273839d..6ce40ca 100644
--- a/src/elf/copy_rel.rs
+++ b/src/elf/copy_rel.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use goblin::elf64::section_header::{SectionHeader, SHF_ALLOC, SHF_WRITE, SHT_NOBITS};
 
 use super::{
+    round_to,
     section::{Synthesized, SynthesizedKind},
     Section, SymbolRef,
 };
@@ -11,15 +12,18 @@ use super::{
 pub struct CopyRel {
     // the total size of the section
     size: u64,
+    // the alignment of the most aligned slot
+    alignment: u64,
     // a mappings from a symbol to a "slot" in the section
     slots: HashMap<SymbolRef, u64>,
 }
 
 impl CopyRel {
-    pub fn insert(&mut self, sym: SymbolRef, size: u64) -> u64 {
-        let offset = self.size;
+    pub fn insert(&mut self, sym: SymbolRef, size: u64, alignment: u64) -> u64 {
+        let offset = round_to(self.size, alignment);
         self.slots.insert(sym, offset);
-        self.size += size;
+        self.size = offset + size;
+        self.alignment = self.alignment.max(alignment);
         offset
     }
 }
@@ -36,6 +40,7 @@ impl<'p> Synthesized<'p> for CopyRel {
 
     fn expand(&self, sh: &mut Section) {
         sh.sh_size = self.size as u64;
+        sh.sh_addralign = sh.sh_addralign.max(self.alignment);
     }
 
     fn as_ref<'k>(kind: &'k SynthesizedKind<'p>) -> Option<&'k Self> {
diff --git a/src/symbol.rs b/src/symbol.rs
index f8b8f24..8026e7a 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -21,6 +21,7 @@ pub struct Symbol<'r> {
     in_got_plt: Option<usize>,
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
+    alignment: u64,
 }
 
 impl<'r> Symbol<'r> {
@@ -35,6 +36,7 @@ impl<'r> Symbol<'r> {
             in_got_plt: None,
             relocation_offset: None,
             dynamic: None,
+            alignment: 1,
         }
     }
 
@@ -129,6 +131,14 @@ impl<'r> Symbol<'r> {
         self.dynamic = Some(dynamic);
     }
 
+    pub const fn alignment(&self) -> u64 {
+        self.alignment
+    }
+
+    pub fn set_alignment(&mut self, alignment: u64) {
+        self.alignment = alignment;
+    }
+
     pub const fn relocation_offset(&self) -> Option<usize> {
         self.relocation_offset
     }
-- 
2.43.0


From 009990a0dc505d3072923062b5dc072f57876208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:21 +0000
Subject: [PATCH 21/57] fix: don't let the iteration order of hash maps change
 the output

---
 src/elf.rs              | 10 +++++++---
 src/elf/symbol_table.rs |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 7169593..6dfeac6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -874,9 +874,13 @@ impl<'d> Writer<'d> {
             let mut dyn_syms = as_mut_sym_tab(&self.dyn_sym_section);
             let section_names = as_str_tab(&self.shstr_section);
 
-            for (sym, dyn_sym) in
-                symbols.named_mut().values_mut().filter_map(|s| s.dynamic().map(|d| (s, d)))
-            {
+            let mut imports = symbols
+                .named_mut()
+                .values_mut()
+                .filter_map(|s| s.dynamic().map(|d| (s, d)))
+                .collect::<Vec<_>>();
+            imports.sort_unstable_by_key(|(s, _)| s.st_name);
+            for (sym, dyn_sym) in imports {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
                     self.dyn_rels.push(rela(offset, index, R_X86_64_GLOB_DAT));
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index acc888f..136b09d 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -283,7 +283,7 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
 
 // compare by gnu hash
 fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
-    s1.gnu_hash().cmp(&s2.gnu_hash())
+    s1.gnu_hash().cmp(&s2.gnu_hash()).then(s1.st_name.cmp(&s2.st_name))
 }
 
 #[derive(Default)]
-- 
2.43.0


From 03a3e210c22f243be133cdc25bccb81180f72eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:42 +0000
Subject: [PATCH 22/57] fix: keep the symbols of a GNU hash bucket together

---
 src/elf/symbol_table.rs | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 136b09d..b86ec91 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -161,15 +161,21 @@ impl<'p> SymbolTable<'p> {
         }
     }
 
+    fn nbuckets(&self) -> u32 {
+        gnu_hash_buckets(self.locals.len() + self.symbols.len())
+    }
+
     pub fn sorted(&self) -> Vec<&Symbol<'p>> {
         let mut syms: Vec<&Symbol<'p>> = self.symbols.values().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        let nbuckets = self.nbuckets();
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         self.locals.iter().chain(syms).collect()
     }
 
     pub fn sorted_mut(&mut self) -> Vec<&mut Symbol<'p>> {
+        let nbuckets = self.nbuckets();
         let mut syms: Vec<&mut Symbol<'p>> = self.symbols.values_mut().collect();
-        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2));
+        syms.sort_by(|s1, s2| sort_symbols_func(s1, s2, nbuckets));
         self.locals.iter_mut().chain(syms).collect()
     }
 
@@ -281,9 +287,18 @@ impl<'s> Index<SymbolRef> for SymbolTable<'s> {
     }
 }
 
-// compare by gnu hash
-fn sort_symbols_func(s1: &Symbol, s2: &Symbol) -> Ordering {
-    s1.gnu_hash().cmp(&s2.gnu_hash()).then(s1.st_name.cmp(&s2.st_name))
+/// How many buckets there are in a GNU hash table for the given number of symbols.
+fn gnu_hash_buckets(num_symbols: usize) -> u32 {
+    num_symbols as u32 / 8 + 1
+}
+
+// compare by bucket first, since the symbols of one have to be next to each other, and then by
+// gnu hash
+fn sort_symbols_func(s1: &Symbol, s2: &Symbol, nbuckets: u32) -> Ordering {
+    (s1.gnu_hash() % nbuckets)
+        .cmp(&(s2.gnu_hash() % nbuckets))
+        .then(s1.gnu_hash().cmp(&s2.gnu_hash()))
+        .then(s1.st_name.cmp(&s2.st_name))
 }
 
 #[derive(Default)]
@@ -388,7 +403,7 @@ impl GnuHashTable {
         let bits = (symbols.len() as u32 - 1) * 12;
         let bloom_size = (bits / elfclass_bits).next_power_of_two();
         let bloom_shift = 26;
-        let nbuckets: u32 = symbols.len() as u32 / 8 + 1;
+        let nbuckets: u32 = gnu_hash_buckets(symbols.len());
         // we always skip the first null symbol. For now, since we don't have
         // any locals in `.dynsym`, we can set this to 1, since we skip 1 symbol only.
         let symbol_offset = 1;
@@ -415,7 +430,7 @@ impl GnuHashTable {
         for (i, sym) in symbols.iter().enumerate() {
             // the last value in a chain doesn't have the last bit set, but
             // how do we know if this sym is the last in the chain?
-            // since the symbols are sorted by gnu_hash, it means that if
+            // since the symbols are sorted by bucket and gnu_hash, it means that if
             // this symbol's gnu_hash is different than the gnu_hash of the next symbol,
             // then there is no other symbol that has the same gnu_hash as our
             // current symbol
-- 
2.43.0


From fb6596aeb1519d7c0369a0fca6788e097ff75008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:16 +0000
Subject: [PATCH 23/57] fix: make the PLT entry the address of an imported
 function

---
 src/elf.rs    | 33 +++++++++++++++++++++++++++++----
 src/symbol.rs | 11 +++++++++++
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 6dfeac6..d76b79e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -18,7 +18,7 @@ use parking_lot::{
 };
 use std::{
     cmp::Ordering,
-    collections::HashMap,
+    collections::{HashMap, HashSet},
     convert::TryInto,
     fs::File,
     io::{Read, Write},
@@ -736,8 +736,17 @@ impl<'d> Writer<'d> {
 
         // handle dynamic object symbols
         let copy_rel = self.copy_rel_section.read();
-        as_mut_sym_tab(&self.dyn_sym_section)
-            .update_object_symbols(copy_rel.sh_addr, copy_rel.index());
+        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+        dyn_symbols.update_object_symbols(copy_rel.sh_addr, copy_rel.index());
+
+        // the PLT entry of a function whose address we use is that address for everyone
+        let plt_address = self.plt_address();
+        for sym in as_sym_tab(&self.sym_section).named().values().filter(|s| s.is_address_taken()) {
+            if let (Some(dyn_sym), Some(index)) = (sym.dynamic(), sym.plt_index()) {
+                dyn_symbols.get_mut(dyn_sym).unwrap().st_value =
+                    plt_entry_addr(plt_address, index) as u64;
+            }
+        }
     }
 
     fn compute_tables(&mut self) {
@@ -786,11 +795,21 @@ impl<'d> Writer<'d> {
     }
 
     fn scan_relocations(&mut self) {
+        let dyn_objects = as_sym_tab(&self.dyn_sym_section)
+            .named()
+            .iter()
+            .filter(|(_, s)| s.is_object())
+            .map(|(st_name, _)| SymbolRef::Named(*st_name))
+            .collect::<HashSet<_>>();
         for section in &mut self.sections {
             for chunk in section.write().chunks_mut() {
                 let mut symbols = as_mut_sym_tab(&self.sym_section);
                 for (reloc, sym_ref) in chunk.relocations_mut() {
                     let r_type = reloc.r_info as u32;
+                    let is_imported_function = symbols
+                        .get(*sym_ref)
+                        .and_then(|s| s.dynamic())
+                        .map_or(false, |d| !dyn_objects.contains(&d));
                     match r_type as u32 {
                         R_X86_64_GOT32
                         | R_X86_64_GOTPCREL
@@ -808,9 +827,15 @@ impl<'d> Writer<'d> {
                                     if sym.is_tls() && r_type == R_X86_64_TLSGD { 2 } else { 1 };
                             }
                         }
-                        R_X86_64_PLT32 => {
+                        R_X86_64_64 | R_X86_64_32 | R_X86_64_32S | R_X86_64_PC32
+                            if !is_imported_function => {}
+                        R_X86_64_PLT32 | R_X86_64_64 | R_X86_64_32 | R_X86_64_32S
+                        | R_X86_64_PC32 => {
                             let sym = symbols.get_mut(*sym_ref).unwrap();
                             if sym.dynamic().is_some() {
+                                if r_type != R_X86_64_PLT32 {
+                                    sym.set_address_taken();
+                                }
                                 let len = self.got_plt.len() + 3;
                                 let offset =
                                     *self.got_plt.entry(*sym_ref).or_insert(len * size_of::<u64>());
diff --git a/src/symbol.rs b/src/symbol.rs
index 8026e7a..50feedc 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -22,6 +22,7 @@ pub struct Symbol<'r> {
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
     alignment: u64,
+    address_taken: bool,
 }
 
 impl<'r> Symbol<'r> {
@@ -37,6 +38,7 @@ impl<'r> Symbol<'r> {
             relocation_offset: None,
             dynamic: None,
             alignment: 1,
+            address_taken: false,
         }
     }
 
@@ -131,6 +133,15 @@ impl<'r> Symbol<'r> {
         self.dynamic = Some(dynamic);
     }
 
+    /// Whether something other than a call or the GOT has the address of the symbol.
+    pub const fn is_address_taken(&self) -> bool {
+        self.address_taken
+    }
+
+    pub fn set_address_taken(&mut self) {
+        self.address_taken = true;
+    }
+
     pub const fn alignment(&self) -> u64 {
         self.alignment
     }
-- 
2.43.0


From a4870be6c495dc158e5ef97e269bcad7a3526f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:37 +0000
Subject: [PATCH 24/57] fix: allocate common symbols

---
 src/elf.rs              | 25 +++++++++++++++++++++++++
 src/elf/symbol_table.rs |  8 ++++++++
 src/lib.rs              | 14 +++++++++-----
 src/symbol.rs           | 10 ++++++++--
 4 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index d76b79e..00c5f92 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -535,6 +535,31 @@ impl<'d> Writer<'d> {
         }
     }
 
+    /// Gives common symbols their space in `.bss`.
+    pub fn allocate_common_symbols(&mut self) -> Result<(), ErrorType> {
+        let mut commons = as_sym_tab(&self.sym_section)
+            .named()
+            .iter()
+            .filter(|(_, s)| s.is_common())
+            .map(|(st_name, s)| (*st_name, s.st_size, s.st_value))
+            .collect::<Vec<_>>();
+        commons.sort_unstable();
+        for (st_name, size, alignment) in commons {
+            let sh = goblin::elf::SectionHeader {
+                sh_type: SHT_NOBITS,
+                sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
+                sh_size: size,
+                sh_addralign: alignment,
+                ..Default::default()
+            };
+            let section_ref = self.add_section(".bss", &sh, None)?;
+            let sym_ref = SymbolRef::Named(st_name);
+            as_mut_sym_tab(&self.sym_section).get_mut(sym_ref).unwrap().st_value = 0;
+            self.definitions.insert(sym_ref, section_ref);
+        }
+        Ok(())
+    }
+
     pub fn is_undefined(&self, sym: SymbolRef) -> bool {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_undefined())
     }
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index b86ec91..3c83535 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -116,6 +116,8 @@ impl<'p> SymbolTable<'p> {
                     && new_sym.is_global()
                     && old_sym.st_shndx != SHN_UNDEF as u16
                     && new_sym.st_shndx != SHN_UNDEF as u16
+                    && !old_sym.is_common()
+                    && !new_sym.is_common()
                 {
                     log::trace!(
                         "Old defition: {:#?} vs new definition: {:#?}",
@@ -124,6 +126,12 @@ impl<'p> SymbolTable<'p> {
                     );
                     return Err(Error::AlreadyDefined(old_sym.reference().into()));
                 }
+                if old_sym.is_common() && new_sym.is_common() {
+                    // there has to be enough space for all of them
+                    old_sym.st_size = old_sym.st_size.max(new_sym.st_size);
+                    // this is the alignment of a common symbol
+                    old_sym.st_value = old_sym.st_value.max(new_sym.st_value);
+                }
                 let adopt = new_sym.precedence() > old_sym.precedence();
                 if adopt {
                     old_sym.st_info = new_sym.st_info;
diff --git a/src/lib.rs b/src/lib.rs
index 04c4afb..0e72b32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -66,9 +66,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
-            if section.sh_addralign > MAX_ALIGNMENT
-                || (section.sh_addralign != 0 && !section.sh_addralign.is_power_of_two())
-            {
+            if !is_valid_alignment(section.sh_addralign) {
                 return Err(format!("invalid alignment of section {} '{}'.", i, name))
                     .map_path_err(self.input.path);
             }
@@ -104,12 +102,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
             let known = match symbol.st_shndx as u32 {
-                SHN_UNDEF | SHN_ABS | SHN_COMMON => true,
+                SHN_UNDEF | SHN_ABS => true,
+                SHN_COMMON => is_valid_alignment(symbol.st_value),
                 i if symbol.st_type() == STT_SECTION => (i as usize) < elf.section_headers.len(),
                 _ => sec_ref.is_some(),
             };
             if !known {
-                return Err(format!("symbol '{}' is in an unknown section.", name))
+                return Err(format!("symbol '{}' is not in a valid section.", name))
                     .map_path_err(path);
             }
             let symbol_ref = writer
@@ -325,6 +324,7 @@ impl Linker {
         }
         let undefined = writer.undefined_symbols(true);
         self.find_undefined_symbols_in_libs(&undefined, true, &mut writer)?;
+        writer.allocate_common_symbols().map_path_err(self.options.output.as_path())?;
         writer.compute_sections();
         let undefined = writer.undefined_symbols(false);
         if !undefined.is_empty() {
@@ -340,6 +340,10 @@ impl Linker {
     }
 }
 
+fn is_valid_alignment(alignment: u64) -> bool {
+    alignment <= MAX_ALIGNMENT && (alignment == 0 || alignment.is_power_of_two())
+}
+
 fn is_exported(sym: &goblin::elf::Sym) -> bool {
     sym.st_shndx != SHN_UNDEF as usize && sym.st_bind() != STB_LOCAL
 }
diff --git a/src/symbol.rs b/src/symbol.rs
index 50feedc..bdce3d8 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -6,7 +6,7 @@ use std::{
 };
 
 use goblin::elf64::{
-    section_header::SHN_UNDEF,
+    section_header::{SHN_COMMON, SHN_UNDEF},
     sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
 };
 
@@ -74,6 +74,10 @@ impl<'r> Symbol<'r> {
         self.sym.st_shndx == SHN_UNDEF as u16
     }
 
+    pub const fn is_common(&self) -> bool {
+        self.sym.st_shndx == SHN_COMMON as u16
+    }
+
     pub const fn reference(&self) -> &Path {
         self.reference
     }
@@ -110,8 +114,10 @@ impl<'r> Symbol<'r> {
     pub const fn precedence(&self) -> u8 {
         if self.is_undefined() {
             0
-        } else if self.is_global() {
+        } else if self.is_common() {
             2
+        } else if self.is_global() {
+            3
         } else {
             1
         }
-- 
2.43.0


From eb45ad056bc74045caa7a2ec623ef4cba1a95fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:46 +0000
Subject: [PATCH 25/57] fix: refuse inputs that aren't relocatable x86-64
 objects or shared libraries

---
 src/error.rs |  2 +-
 src/lib.rs   | 34 ++++++++++++++++++++++------------
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 0e6873c..a27a708 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -7,7 +7,7 @@ pub enum ErrorType {
     Io(#[from] io::Error),
     #[error("{0}")]
     ElfWrite(#[from] goblin::error::Error),
-    #[error("Not an elf.")]
+    #[error("Not an x86-64 ELF file that can be linked.")]
     NotAnElf,
     #[error("{0}")]
     Other(String),
diff --git a/src/lib.rs b/src/lib.rs
index 0e72b32..e3b3001 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -10,6 +10,7 @@ use goblin::{
     archive::{Archive, Index, Member, MAGIC},
     elf::Elf,
     elf64::{
+        header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA,
@@ -45,9 +46,9 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
 }
 
 impl<'p, 'd> Input<'p, 'd> {
-    fn to_elf_object<'i>(&'i self) -> Result<Option<ElfObject<'i, 'p, '_, 'i>>, Error<'p>> {
-        let elf = Elf::parse(self.data).map_path_err(self.path)?;
-        Ok(if elf.is_object_file() { Some(ElfObject::new(self, elf)) } else { None })
+    fn to_elf_object<'i>(&'i self) -> Result<ElfObject<'i, 'p, '_, 'i>, Error<'p>> {
+        let elf = parse_elf(self.data, ET_REL).map_path_err(self.path)?;
+        Ok(ElfObject::new(self, elf))
     }
 }
 
@@ -221,7 +222,7 @@ impl Linker {
         for (lib, as_needed) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
-            let elf = Elf::parse(&data).map_path_err(path)?;
+            let elf = parse_elf(&data, ET_DYN).map_path_err(path)?;
             let mut definitions = HashMap::new();
             for sym in elf.dynsyms.iter().filter(|s| is_exported(s)) {
                 let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
@@ -271,10 +272,7 @@ impl Linker {
                 if let Some(member) = member {
                     found = true;
                     let input = Input { path: ar.path, data: &ar.data[member] };
-                    let mut elf = input
-                        .to_elf_object()?
-                        .ok_or(ErrorType::NotAnElf)
-                        .map_path_err(input.path)?;
+                    let mut elf = input.to_elf_object()?;
                     elf.process_sections(writer)?;
                     elf.process_symbols(writer)?;
                     elf.process_relocations(writer)?;
@@ -300,10 +298,9 @@ impl Linker {
             .collect::<Result<Vec<Input>, Error<'_>>>()?;
         let mut elfs = Vec::with_capacity(inputs.len());
         for input in &inputs {
-            if let Some(mut elf) = input.to_elf_object()? {
-                elf.process_sections(&mut writer)?;
-                elfs.push(elf);
-            };
+            let mut elf = input.to_elf_object()?;
+            elf.process_sections(&mut writer)?;
+            elfs.push(elf);
         }
         for elf in &mut elfs {
             elf.process_symbols(&mut writer)?;
@@ -340,6 +337,19 @@ impl Linker {
     }
 }
 
+/// Parses an x86-64 ELF file of the given type.
+fn parse_elf(data: &[u8], e_type: u16) -> Result<Elf<'_>, ErrorType> {
+    let elf = Elf::parse(data)?;
+    if !elf.is_64
+        || !elf.little_endian
+        || elf.header.e_machine != EM_X86_64
+        || elf.header.e_type != e_type
+    {
+        return Err(ErrorType::NotAnElf);
+    }
+    Ok(elf)
+}
+
 fn is_valid_alignment(alignment: u64) -> bool {
     alignment <= MAX_ALIGNMENT && (alignment == 0 || alignment.is_power_of_two())
 }
-- 
2.43.0


From b409399fca72ac726a03fc1102008ceb2e7a051c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:10 +0000
Subject: [PATCH 26/57] fix: write the output once it is complete, and remove
 it if that fails

---
 src/elf.rs | 38 +++++++++++++++++++++++++++++++-------
 src/lib.rs | 11 +++++++++--
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 00c5f92..7bff1bd 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -140,7 +140,8 @@ pub enum DynTag {
 }
 
 pub struct Writer<'d> {
-    out: File,
+    output: &'d Path,
+    out: Vec<u8>,
     eh: Header,
     dyn_rels: Vec<Rela>,
     plt_rels: Vec<Rela>,
@@ -175,7 +176,9 @@ pub struct Writer<'d> {
 
 impl<'d> Writer<'d> {
     pub fn new(options: &'d options::Options) -> std::io::Result<Self> {
-        let out = File::create(options.output.as_path())?;
+        let output = options.output.as_path();
+        // we don't want to leave the previous output around in case linking fails
+        remove_file(output)?;
         let eh = Header {
             #[rustfmt::skip]
             e_ident: [
@@ -347,7 +350,8 @@ impl<'d> Writer<'d> {
         }
 
         Ok(Self {
-            out,
+            output,
+            out: vec![],
             eh,
             dyn_rels: vec![],
             plt_rels: vec![],
@@ -1052,7 +1056,7 @@ impl<'d> Writer<'d> {
         ph.p_paddr = ph.p_vaddr;
     }
 
-    pub fn write_to_disk(mut self) {
+    pub fn write_to_disk(mut self) -> std::io::Result<()> {
         let mut offset = 0;
         log::trace!("0x{:x}: ---- elf header ----\n{:#?}", offset, self.eh);
         offset += self.eh.serialize(&mut self.out);
@@ -1103,9 +1107,21 @@ impl<'d> Writer<'d> {
             );
             offset += section.serialize(&mut self.out);
         }
-        let mut perm = self.out.metadata().unwrap().permissions();
-        perm.set_mode(0o755);
-        self.out.set_permissions(perm).unwrap();
+        let written = File::create(self.output).and_then(|mut out| {
+            out.write_all(&self.out)?;
+            let metadata = out.metadata()?;
+            if metadata.is_file() {
+                let mut perm = metadata.permissions();
+                perm.set_mode(0o755);
+                out.set_permissions(perm)?;
+            }
+            Ok(())
+        });
+        if written.is_err() {
+            // the first error is the one that matters
+            let _ = remove_file(self.output);
+        }
+        written
     }
 
     fn count_program_headers(&self) -> usize {
@@ -1215,6 +1231,14 @@ impl<'d> Writer<'d> {
     }
 }
 
+/// Removes `path` if there's a regular file there.
+fn remove_file(path: &Path) -> std::io::Result<()> {
+    match std::fs::metadata(path) {
+        Ok(m) if m.is_file() => std::fs::remove_file(path),
+        _ => Ok(()),
+    }
+}
+
 const fn rela(offset: usize, index: usize, ty: u32) -> Rela {
     Rela { r_offset: offset as u64, r_info: ((index << 32) + ty as usize) as u64, r_addend: 0 }
 }
diff --git a/src/lib.rs b/src/lib.rs
index e3b3001..de2a508 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -283,6 +283,14 @@ impl Linker {
     }
 
     pub fn link(&self) -> Result<(), Error<'_>> {
+        let output = self.options.output.as_path();
+        let shared_libs = self.options.shared_libs.iter().map(|(lib, _)| lib);
+        for input in self.objects.iter().chain(&self.archives).chain(shared_libs) {
+            if input.canonicalize().ok() == output.canonicalize().ok() {
+                return Err(ErrorType::Other("the output is also an input.".into()))
+                    .map_path_err(output);
+            }
+        }
         let mut writer =
             elf::Writer::new(&self.options).map_path_err(self.options.output.as_path())?;
         let mut elf_data = Vec::with_capacity(self.objects.len());
@@ -332,8 +340,7 @@ impl Linker {
             return Err(ErrorType::Other(format_list(&names)))
                 .map_path_err(self.options.output.as_path());
         }
-        writer.write_to_disk();
-        Ok(())
+        writer.write_to_disk().map_path_err(self.options.output.as_path())
     }
 }
 
-- 
2.43.0


From 312981044cf56ce95bec4084d3058c851eb588ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:52 +0000
Subject: [PATCH 27/57] fix: delimit the whole of the init and fini arrays

---
 src/elf.rs | 54 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 7bff1bd..ea55153 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -735,32 +735,40 @@ impl<'d> Writer<'d> {
                 s.st_value = got_plt_addr;
             };
         }
-        let skip = [self.sym_str_section.read().sh_name, self.shstr_section.read().sh_name];
-        for section in self.sections.iter().filter(|s| !skip.contains(&s.read().sh_name)) {
-            let mut section = section.write();
-            if is_some_with(section_names.sh_name(".init_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__init_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
-                }
-                if let Some(s) = symbol_names.get("__init_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
-                    let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
-                }
-            } else if is_some_with(section_names.sh_name(".fini_array"), &section.sh_name) {
-                if let Some(s) = symbol_names.get("__fini_array_start") {
-                    section.chunk_mut(0).add_symbol(SymbolRef::Named(s.offset as u32));
-                }
-                if let Some(s) = symbol_names.get("__fini_array_end") {
-                    let sym_ref = SymbolRef::Named(s.offset as u32);
+        let undefined_ref = |name: &'static str| {
+            let sym_ref = SymbolRef::Named(symbol_names.get(name)?.offset as u32);
+            if self.is_undefined(sym_ref) {
+                Some(sym_ref)
+            } else {
+                None
+            }
+        };
+        for (name, start, end) in [
+            (".preinit_array", "__preinit_array_start", "__preinit_array_end"),
+            (".init_array", "__init_array_start", "__init_array_end"),
+            (".fini_array", "__fini_array_start", "__fini_array_end"),
+        ] {
+            let sh_name = section_names.sh_name(name);
+            let index = self.sections.iter().position(|s| is_some_with(sh_name, &s.read().sh_name));
+            for sym_ref in [undefined_ref(start), undefined_ref(end)] {
+                // there might be nothing between the two
+                if let (None, Some(sym_ref)) = (index, sym_ref) {
                     let mut symbols = as_mut_sym_tab(&self.sym_section);
-                    symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
-                    let chunk_index = section.last_chunk_index();
-                    section.chunk_mut(chunk_index).add_symbol(sym_ref);
+                    symbols.get_mut(sym_ref).unwrap().st_shndx = SHN_ABS as u16;
                 }
             }
+            let mut section = match index {
+                Some(index) => self.sections[index].write(),
+                None => continue,
+            };
+            if let Some(sym_ref) = undefined_ref(start) {
+                section.chunk_mut(0).add_symbol(sym_ref);
+            }
+            if let Some(sym_ref) = undefined_ref(end) {
+                let mut symbols = as_mut_sym_tab(&self.sym_section);
+                symbols.get_mut(sym_ref).unwrap().st_value = section.size_on_disk();
+                section.chunk_mut(0).add_symbol(sym_ref);
+            }
         }
 
         // handle dynamic object symbols
-- 
2.43.0


From 2eec12e60131fd604e9b94c9148b084dc1fb1042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:22 +0000
Subject: [PATCH 28/57] fix: run prioritised constructors and preinit functions
 in order

---
 src/elf.rs       | 37 ++++++++++++++++++++++++++++++++++---
 src/elf/chunk.rs | 21 +++++++++++++++++++--
 2 files changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index ea55153..4e2c3ab 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -132,6 +132,10 @@ pub enum DynTag {
     FiniArraySize = 28,
     /// Library search path
     Runpath = 29,
+    /// Array with addresses of preinit fct
+    PreinitArray = 32,
+    /// Size in bytes of DT_PREINIT_ARRAY
+    PreinitArraySize = 33,
     /// GNU-style hash table
     GnuHash = 0x6fff_fef5,
     /// Indicates that all Elf32_Rela (or Elf64_Rela) RELATIVE relocations have been
@@ -392,6 +396,10 @@ impl<'d> Writer<'d> {
         data: Option<Vec<u8>>,
     ) -> Result<SectionRef<'d>, ErrorType> {
         let name = name.into();
+        let (name, priority) = match init_priority(&name) {
+            Some((array, priority)) => (array.into(), priority),
+            None => (name, NO_INIT_PRIORITY),
+        };
         let entry = self
             .shstr_section
             .write()
@@ -412,7 +420,8 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let chunk = data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from);
+            let mut chunk = data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from);
+            chunk.set_init_priority(priority);
             let sh = Section::new(sh);
             sh.write().add_chunk(chunk);
             self.sections.push(Arc::clone(&sh));
@@ -432,8 +441,9 @@ impl<'d> Writer<'d> {
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
             // the output section has to allow everything its parts need
             section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
-            let chunk =
-                section.add_chunk(data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from));
+            let mut chunk = data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from);
+            chunk.set_init_priority(priority);
+            let chunk = section.add_chunk(chunk);
             (section_ptr, chunk)
         };
         Ok(SectionRef { section, chunk })
@@ -902,6 +912,11 @@ impl<'d> Writer<'d> {
             def.section.write().chunk_mut(def.chunk).add_symbol(sym_ref);
         }
 
+        // there's nothing that refers to a chunk by its index from now on
+        for section in &mut self.sections {
+            section.write().chunks_mut().sort_by_key(|c| c.init_priority());
+        }
+
         self.scan_relocations();
 
         self.resize_got_section();
@@ -1247,6 +1262,19 @@ fn remove_file(path: &Path) -> std::io::Result<()> {
     }
 }
 
+/// The functions which have no priority are the last ones of an array.
+const NO_INIT_PRIORITY: u32 = u32::MAX;
+
+/// Splits the likes of `.init_array.00101` in the name of the array, and the priority of its part.
+fn init_priority(name: &str) -> Option<(&'static str, u32)> {
+    for array in [".init_array", ".fini_array"] {
+        if let Some(priority) = name.strip_prefix(array).and_then(|n| n.strip_prefix('.')) {
+            return priority.parse().ok().map(|priority| (array, priority));
+        }
+    }
+    None
+}
+
 const fn rela(offset: usize, index: usize, ty: u32) -> Rela {
     Rela { r_offset: offset as u64, r_info: ((index << 32) + ty as usize) as u64, r_addend: 0 }
 }
@@ -1311,6 +1339,7 @@ fn dyn_entries(names: &StringTable, sh: &SectionPtr) -> usize {
     let name = names.name(sh.sh_name as usize).unwrap();
     match name as &str {
         ".init" | ".fini" | ".got.plt" => 1,
+        ".preinit_array" => 2,
         ".rela.dyn" => 4,
         ".rela.plt" => 3,
         _ => match sh.sh_type {
@@ -1340,6 +1369,8 @@ fn try_add_dyn_entries(entries: &mut Vec<(DynTag, u64)>, names: &StringTable, sh
             (DynTag::PltRelSz, sh.sh_size),
         ]),
         ".got.plt" => entries.push((DynTag::PltGot, sh.sh_addr)),
+        ".preinit_array" => entries
+            .extend(&[(DynTag::PreinitArray, sh.sh_addr), (DynTag::PreinitArraySize, sh.sh_size)]),
         _ => match sh.sh_type {
             SHT_DYNSYM => {
                 entries.extend(&[(DynTag::SymTab, sh.sh_addr), (DynTag::SymEnt, sh.sh_entsize)])
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index 95d15f5..fb63340 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -9,7 +9,7 @@ use std::{
     io::Write,
 };
 
-use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable};
+use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable, NO_INIT_PRIORITY};
 
 /// A part of a section.
 pub struct Chunk {
@@ -19,11 +19,20 @@ pub struct Chunk {
     zeroes: u64,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
+    /// The order of the chunk within an array of functions.
+    init_priority: u32,
 }
 
 impl Chunk {
     pub fn new(data: Vec<u8>) -> Self {
-        Self { address: None, data, zeroes: 0, symbols: Default::default(), relocations: vec![] }
+        Self {
+            address: None,
+            data,
+            zeroes: 0,
+            symbols: Default::default(),
+            relocations: vec![],
+            init_priority: NO_INIT_PRIORITY,
+        }
     }
 
     /// A chunk of a NOBITS section.
@@ -31,6 +40,14 @@ impl Chunk {
         Self { zeroes: size, ..Self::new(vec![]) }
     }
 
+    pub fn init_priority(&self) -> u32 {
+        self.init_priority
+    }
+
+    pub fn set_init_priority(&mut self, init_priority: u32) {
+        self.init_priority = init_priority;
+    }
+
     pub fn zeroes(&self) -> u64 {
         self.zeroes
     }
-- 
2.43.0


From 2ac6322791dbcee0eb08d4f8099fe965ba8df9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:26 +0000
Subject: [PATCH 29/57] fix: report undefined symbols before relocating against
 them

---
 src/elf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 4e2c3ab..43e4f3e 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1016,6 +1016,11 @@ impl<'d> Writer<'d> {
             let mut symbols = as_mut_sym_tab(&self.sym_section);
             section.write().patch_symbol_values(&mut symbols);
         }
+        if !self.undefined_symbols(false).is_empty() {
+            // the link is going to fail, there is nothing to relocate against
+            return;
+        }
+
         let symbols = as_sym_tab(&self.sym_section);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
 
-- 
2.43.0


From 1ceb43569eb4d14239f880eef1bd16b2d6531972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:38 +0000
Subject: [PATCH 30/57] fix: let the other names of a copied object refer to
 the copy

---
 src/elf.rs    | 70 +++++++++++++++++++++++++++++++++++++--------------
 src/lib.rs    | 18 ++++++++++++-
 src/symbol.rs | 13 +++++++++-
 3 files changed, 80 insertions(+), 21 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 43e4f3e..35d6e5d 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -18,7 +18,7 @@ use parking_lot::{
 };
 use std::{
     cmp::Ordering,
-    collections::{HashMap, HashSet},
+    collections::{hash_map::Entry, HashMap, HashSet},
     convert::TryInto,
     fs::File,
     io::{Read, Write},
@@ -511,6 +511,7 @@ impl<'d> Writer<'d> {
     ) -> Result<Option<SymbolRef>, ErrorType> {
         // where the symbol is in the library is all we know about its alignment
         let alignment = 1 << elf_sym.st_value.trailing_zeros().min(PAGE_ALIGNMENT.trailing_zeros());
+        let address = elf_sym.st_value;
         elf_sym.st_shndx = SHN_UNDEF as u16;
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
@@ -523,22 +524,39 @@ impl<'d> Writer<'d> {
         if let Ok((dyn_ref, _)) = r {
             if let Some(sym) = as_mut_sym_tab(&self.dyn_sym_section).get_mut(dyn_ref) {
                 sym.set_alignment(alignment);
+                sym.set_library_address(address);
             }
-            if let Some(entry) =
-                self.sym_str_section.read().inner::<StringTable>().unwrap().get(name.to_string())
-            {
-                self.sym_section
-                    .write()
-                    .inner_mut::<SymbolTable<'d>>()
-                    .unwrap()
-                    .get_mut(SymbolRef::Named(entry.offset as u32))
-                    .unwrap()
-                    .set_dynamic(dyn_ref);
+            if let Some(sym_ref) = self.named_symbol(name) {
+                as_mut_sym_tab(&self.sym_section).get_mut(sym_ref).unwrap().set_dynamic(dyn_ref);
             }
         }
         r.map(|(dyn_ref, _)| Some(dyn_ref))
     }
 
+    /// The global or weak symbol of the given name, if any of the inputs mentions it.
+    fn named_symbol(&self, name: &str) -> Option<SymbolRef> {
+        let offset = as_str_tab(&self.sym_str_section).get(name.to_string())?.offset;
+        let sym_ref = SymbolRef::Named(offset as u32);
+        as_sym_tab(&self.sym_section).get(sym_ref).map(|_| sym_ref)
+    }
+
+    /// Adds another name that a library has for an object we import. The library might use that
+    /// one, but has to find our copy of the object.
+    pub fn add_dyn_alias(
+        &mut self,
+        elf_sym: Sym,
+        name: &str,
+        reference: &'d Path,
+    ) -> Result<(), ErrorType> {
+        // we either define it, or import it anyway
+        if self.named_symbol(name).is_none()
+            && as_str_tab(&self.dyn_sym_str_section).get(name.to_string()).is_none()
+        {
+            self.add_dyn_symbol(elf_sym, name, reference)?;
+        }
+        Ok(())
+    }
+
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -957,6 +975,8 @@ impl<'d> Writer<'d> {
                 .filter_map(|s| s.dynamic().map(|d| (s, d)))
                 .collect::<Vec<_>>();
             imports.sort_unstable_by_key(|(s, _)| s.st_name);
+            // there is one copy of each object, no matter how many names it has
+            let mut copies = HashMap::new();
             for (sym, dyn_sym) in imports {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
@@ -965,20 +985,27 @@ impl<'d> Writer<'d> {
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
                     let size = dyn_symbol.st_size;
-                    let offset = self
-                        .copy_rel_section
-                        .write()
-                        .inner_mut::<CopyRel>()
-                        .unwrap()
-                        .insert(dyn_sym, size, dyn_symbol.alignment());
-                    self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
-                    dyn_symbol.st_value = offset;
+                    if let Entry::Vacant(copy) = copies.entry(copy_key(dyn_symbol)) {
+                        let offset = self
+                            .copy_rel_section
+                            .write()
+                            .inner_mut::<CopyRel>()
+                            .unwrap()
+                            .insert(dyn_sym, size, dyn_symbol.alignment());
+                        self.dyn_rels.push(rela(offset as usize, index, R_X86_64_COPY));
+                        copy.insert(offset);
+                    }
                 }
                 if let Some(offset) = sym.got_plt_offset() {
                     sym.set_relocation_offset(self.plt_rels.len());
                     self.plt_rels.push(rela(offset, index, R_X86_64_JUMP_SLOT));
                 }
             }
+            for dyn_symbol in dyn_syms.named_mut().values_mut().filter(|s| s.is_object()) {
+                if let Some(offset) = copies.get(&copy_key(dyn_symbol)) {
+                    dyn_symbol.st_value = *offset;
+                }
+            }
             // now we know how big the section is
             self.copy_rel_section.write().expand();
             self.dyn_rel_section.write().sh_size = (self.dyn_rels.len() * size_of::<Rela>()) as u64;
@@ -1402,6 +1429,11 @@ fn p_type(names: &StringTable, sh: &SectionHeader) -> Option<u32> {
     }
 }
 
+/// What all names of an imported object have in common.
+fn copy_key<'d>(sym: &Symbol<'d>) -> (&'d Path, Option<u64>, u64) {
+    (sym.reference(), sym.library_address(), sym.st_size)
+}
+
 fn post_inc(v: &mut u64, inc: u64) -> u64 {
     let tmp = *v;
     *v += inc;
diff --git a/src/lib.rs b/src/lib.rs
index de2a508..79f20cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,7 +16,7 @@ use goblin::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA,
             SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::{STB_LOCAL, STT_SECTION},
+        sym::{STB_LOCAL, STT_OBJECT, STT_SECTION},
     },
 };
 use std::{
@@ -240,6 +240,11 @@ impl Linker {
                     needed = true;
                     if import {
                         writer.add_dyn_symbol((*sym).into(), &name, path).map_path_err(path)?;
+                        for alias in elf.dynsyms.iter().filter(|a| is_alias(a, sym)) {
+                            let name =
+                                get_dyn_symbol_name(&elf, alias.st_name).map_path_err(path)?;
+                            writer.add_dyn_alias(alias.into(), name, path).map_path_err(path)?;
+                        }
                     }
                 } else {
                     not_found.push(symbol);
@@ -365,6 +370,17 @@ fn is_exported(sym: &goblin::elf::Sym) -> bool {
     sym.st_shndx != SHN_UNDEF as usize && sym.st_bind() != STB_LOCAL
 }
 
+/// Whether a library has another name for the object `sym`.
+fn is_alias(alias: &goblin::elf::Sym, sym: &goblin::elf::Sym) -> bool {
+    is_exported(alias)
+        && sym.st_type() == STT_OBJECT
+        && alias.st_type() == STT_OBJECT
+        && alias.st_value == sym.st_value
+        && alias.st_shndx == sym.st_shndx
+        && alias.st_size == sym.st_size
+        && alias.st_name != sym.st_name
+}
+
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
diff --git a/src/symbol.rs b/src/symbol.rs
index bdce3d8..799ad3a 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -22,6 +22,7 @@ pub struct Symbol<'r> {
     relocation_offset: Option<usize>,
     dynamic: Option<SymbolRef>,
     alignment: u64,
+    library_address: Option<u64>,
     address_taken: bool,
 }
 
@@ -38,6 +39,7 @@ impl<'r> Symbol<'r> {
             relocation_offset: None,
             dynamic: None,
             alignment: 1,
+            library_address: None,
             address_taken: false,
         }
     }
@@ -78,7 +80,7 @@ impl<'r> Symbol<'r> {
         self.sym.st_shndx == SHN_COMMON as u16
     }
 
-    pub const fn reference(&self) -> &Path {
+    pub const fn reference(&self) -> &'r Path {
         self.reference
     }
 
@@ -156,6 +158,15 @@ impl<'r> Symbol<'r> {
         self.alignment = alignment;
     }
 
+    /// Where an imported symbol is in its library.
+    pub const fn library_address(&self) -> Option<u64> {
+        self.library_address
+    }
+
+    pub fn set_library_address(&mut self, address: u64) {
+        self.library_address = Some(address);
+    }
+
     pub const fn relocation_offset(&self) -> Option<usize> {
         self.relocation_offset
     }
-- 
2.43.0


From c9652fbaf5bfed02c7c8326462305c34a276ad17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:47 +0000
Subject: [PATCH 31/57] fix: export what the program defines for the shared
 libraries

---
 src/elf.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 src/lib.rs |  4 ++++
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/src/elf.rs b/src/elf.rs
index 35d6e5d..5f2cc83 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -10,7 +10,7 @@ use goblin::elf64::{
         SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
         SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
-    sym::Sym,
+    sym::{st_visibility, Sym, STV_DEFAULT, STV_PROTECTED},
 };
 use parking_lot::{
     MappedRwLockReadGuard as MapRGuard, MappedRwLockWriteGuard as MapWGuard,
@@ -176,6 +176,8 @@ pub struct Writer<'d> {
     gnu_hash_section: Option<SectionPtr<'d>>,
     // holds the space required by COPY relocations
     copy_rel_section: SectionPtr<'d>,
+    // the dynamic symbols of what we define for the libraries
+    exports: HashMap<SymbolRef, SymbolRef>,
 }
 
 impl<'d> Writer<'d> {
@@ -384,6 +386,7 @@ impl<'d> Writer<'d> {
             hash_section,
             gnu_hash_section,
             copy_rel_section,
+            exports: HashMap::new(),
         })
     }
 
@@ -557,6 +560,31 @@ impl<'d> Writer<'d> {
         Ok(())
     }
 
+    /// Lets the libraries see our definition of `name`, if there is one.
+    pub fn export_symbol(&mut self, name: &str, reference: &'d Path) -> Result<(), ErrorType> {
+        let sym_ref = match self.named_symbol(name) {
+            Some(sym_ref) if !self.exports.contains_key(&sym_ref) => sym_ref,
+            _ => return Ok(()),
+        };
+        let mut elf_sym = as_sym_tab(&self.sym_section)[sym_ref].sym;
+        if elf_sym.st_shndx == SHN_UNDEF as u16
+            || !matches!(st_visibility(elf_sym.st_other), STV_DEFAULT | STV_PROTECTED)
+        {
+            return Ok(());
+        }
+        elf_sym.st_shndx = SHN_UNDEF as u16;
+        elf_sym.st_value = 0;
+        let (dyn_ref, _) = Self::add_symbol_inner(
+            elf_sym,
+            name,
+            reference,
+            &mut as_mut_str_tab(&self.dyn_sym_str_section),
+            &mut as_mut_sym_tab(&self.dyn_sym_section),
+        )?;
+        self.exports.insert(sym_ref, dyn_ref);
+        Ok(())
+    }
+
     pub fn symbol_name(&self, sym: SymbolRef) -> Option<MapRGuard<str>> {
         if let SymbolRef::Named(st_name) = sym {
             Some(MapRGuard::map(as_str_tab(&self.sym_str_section), |s| {
@@ -1049,6 +1077,13 @@ impl<'d> Writer<'d> {
         }
 
         let symbols = as_sym_tab(&self.sym_section);
+        let mut dyn_symbols = as_mut_sym_tab(&self.dyn_sym_section);
+        for (sym_ref, dyn_ref) in &self.exports {
+            let dyn_symbol = dyn_symbols.get_mut(*dyn_ref).unwrap();
+            dyn_symbol.st_shndx = symbols[*sym_ref].st_shndx;
+            dyn_symbol.st_value = symbols[*sym_ref].st_value;
+        }
+        drop(dyn_symbols);
         let dyn_symbols = as_sym_tab(&self.dyn_sym_section);
 
         // the loader only fills in the `.got` entries of dynamic symbols
@@ -1474,6 +1509,10 @@ fn as_str_tab<'a>(sec: &'a SectionPtr<'_>) -> MapRGuard<'a, StringTable> {
     RGuard::map(sec.read(), |s| s.inner::<StringTable>().unwrap())
 }
 
+fn as_mut_str_tab<'a>(sec: &'a SectionPtr<'_>) -> MapWGuard<'a, StringTable> {
+    WGuard::map(sec.write(), |s| s.inner_mut::<StringTable>().unwrap())
+}
+
 fn as_sym_tab<'a, 'p>(sec: &'a SectionPtr<'p>) -> MapRGuard<'a, SymbolTable<'p>> {
     RGuard::map(sec.read(), |s| s.inner::<SymbolTable<'p>>().unwrap())
 }
diff --git a/src/lib.rs b/src/lib.rs
index 79f20cb..8cd7e86 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -251,6 +251,10 @@ impl Linker {
                 }
             }
             if import && needed {
+                for sym in elf.dynsyms.iter().filter(|s| s.st_bind() != STB_LOCAL) {
+                    let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
+                    writer.export_symbol(name, path).map_path_err(path)?;
+                }
                 let file_name = path.file_name().unwrap().to_str().unwrap();
                 writer.add_needed(elf.soname.unwrap_or(file_name));
             }
-- 
2.43.0


From 7eb331ee8c42ae9ec03999d2ce61d3f154576afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:21 +0000
Subject: [PATCH 32/57] fix: take archives without members for archives, not
 text

---
 src/main.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 707a0c9..be3487d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -80,11 +80,9 @@ enum FileType {
 }
 
 fn file_type(input: &std::path::Path) -> std::io::Result<FileType> {
-    let mut f = std::fs::File::open(&input)?;
-    let mut header = [0; 18];
-    if f.read_exact(&mut header).is_err() {
-        return Ok(FileType::Text);
-    }
+    let f = std::fs::File::open(&input)?;
+    let mut header = Vec::with_capacity(18);
+    f.take(18).read_to_end(&mut header)?;
     if header.starts_with(goblin::archive::MAGIC) {
         Ok(FileType::Archive)
     } else if header.starts_with(&[0x7f, b'E', b'L', b'F']) {
-- 
2.43.0


From 13c7ba52e216f84432c443aabdca10dc134d1d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:45 +0000
Subject: [PATCH 33/57] fix: don't fail for a message that cannot be written

---
 src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index be3487d..59e678e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,10 @@
 use dld::elf::{BuildId, Emulation, HashStyle, Options};
 use goblin::elf32::header::ET_DYN;
-use std::{io::Read, path::PathBuf, str::FromStr};
+use std::{
+    io::{Read, Write},
+    path::PathBuf,
+    str::FromStr,
+};
 
 mod linker_script;
 
@@ -66,7 +70,9 @@ fn main() -> Result<(), String> {
     if let Err(e) = linker.link() {
         Err(format!("{}", e))
     } else {
-        println!("Elf executable in: {}", linker.options.output.display());
+        // the link has succeeded, even if nobody can read this
+        let _ =
+            writeln!(std::io::stdout(), "Elf executable in: {}", linker.options.output.display());
         Ok(())
     }
 }
-- 
2.43.0


From e9600c3b82f4224751432d1762421d6403b7c68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:27:46 +0000
Subject: [PATCH 34/57] fix: don't replace a linker script with the output

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 59e678e..96b8d3e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -221,6 +221,9 @@ fn process_script(
     if args.scripts.contains(&path) {
         return Err(error("linker script includes itself.".into()));
     }
+    if args.opts.output.canonicalize().ok().as_ref() == Some(&path) {
+        return Err(error("the output is also an input.".into()));
+    }
     let text = std::fs::read_to_string(&path).map_err(|e| error(e.to_string()))?;
     for inputs in linker_script::parse_inputs(&text).map_err(|e| error(e.to_string()))? {
         if let Some(arg) = inputs
-- 
2.43.0


From ee2092a40f56f8d10203faa54cae9bb97c24344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:28 +0000
Subject: [PATCH 35/57] fix: don't lock up when tracing the names of sections

---
 src/elf.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 5f2cc83..497103a 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1155,6 +1155,14 @@ impl<'d> Writer<'d> {
             offset += ph.serialize(&mut self.out);
         }
         for (i, section) in self.sections.iter().enumerate() {
+            let sh_name = section.read().sh_name as usize;
+            // the section can be the one with the names, so it must not be locked yet
+            log::trace!(
+                "0x{:x}: ---- section {} {:?} ----",
+                section.read().sh_offset,
+                i,
+                self.shstr_section.read().inner::<StringTable>().unwrap().name(sh_name)
+            );
             let mut section = section.write();
             // add the necessary padding between aligned sections
             if offset < section.sh_offset as usize {
@@ -1167,16 +1175,6 @@ impl<'d> Writer<'d> {
                     .unwrap();
                 offset = section.sh_offset as usize;
             }
-            log::trace!(
-                "0x{:x}: ---- section {} {:?} ----",
-                offset,
-                i,
-                self.shstr_section
-                    .read()
-                    .inner::<StringTable>()
-                    .unwrap()
-                    .name(section.sh_name as usize)
-            );
             section.finalize();
             for chunk in section.chunks() {
                 self.out.write_all(chunk).unwrap();
-- 
2.43.0


From 607c0b1f4fceb4f1483715231401ed8e28853af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:12 +0000
Subject: [PATCH 36/57] fix: check the names of all sections and the symbol
 tables of relocations

Names of symbol tables, string tables and relocation sections could lie outside
the string table, and relocations could refer to a symbol table that isn't there.
---
 src/lib.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8cd7e86..1830984 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -58,15 +58,18 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     }
 
     pub fn process_sections(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
-        for (i, section) in self
-            .elf
-            .section_headers
-            .iter()
-            .enumerate()
-            .filter(|(_, sh)| !SKIPPED_SECTIONS.contains(&sh.sh_type))
-        {
+        for (i, section) in self.elf.section_headers.iter().enumerate() {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
+            if section.sh_type == SHT_RELA
+                && section.sh_link as usize >= self.elf.section_headers.len()
+            {
+                return Err(format!("no symbol table for section {} '{}'.", i, name))
+                    .map_path_err(self.input.path);
+            }
+            if SKIPPED_SECTIONS.contains(&section.sh_type) {
+                continue;
+            }
             if !is_valid_alignment(section.sh_addralign) {
                 return Err(format!("invalid alignment of section {} '{}'.", i, name))
                     .map_path_err(self.input.path);
-- 
2.43.0


From 0a9fa2c48bcc5598b1746797c5b0ac5eb4d038c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:59:49 +0000
Subject: [PATCH 37/57] fix: refuse libraries whose dynamic symbol or string
 table is not in the file

They were taken for libraries which define nothing.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1830984..61db17a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,7 +8,7 @@ mod utils;
 use error::{Error, ErrorExt, ErrorType};
 use goblin::{
     archive::{Archive, Index, Member, MAGIC},
-    elf::Elf,
+    elf::{dynamic::Dynamic, Elf},
     elf64::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
@@ -366,6 +366,11 @@ fn parse_elf(data: &[u8], e_type: u16) -> Result<Elf<'_>, ErrorType> {
     {
         return Err(ErrorType::NotAnElf);
     }
+    // goblin leaves the offsets of tables which aren't in the file at zero
+    let unreadable = |d: &Dynamic| d.info.strtab == 0 || d.info.symtab == 0;
+    if e_type == ET_DYN && elf.dynamic.as_ref().map_or(false, unreadable) {
+        return Err(ErrorType::Other("the dynamic symbols are not in the file.".into()));
+    }
     Ok(elf)
 }
 
-- 
2.43.0


From 1fb76ca3b5c1fe63da72a53bd3eff581bb1a5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:29 +0000
Subject: [PATCH 38/57] fix: refuse objects with truncated symbol tables,
 string tables or relocations

The part of an entry at the end of the file was ignored.
---
 src/lib.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 61db17a..6049dac 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -27,7 +27,7 @@ use std::{
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_NULL, SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
 
 /// There's no use for a larger alignment than this one.
 const MAX_ALIGNMENT: u64 = 1 << 24;
@@ -58,7 +58,9 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     }
 
     pub fn process_sections(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
-        for (i, section) in self.elf.section_headers.iter().enumerate() {
+        for (i, section) in
+            self.elf.section_headers.iter().enumerate().filter(|(_, sh)| sh.sh_type != SHT_NULL)
+        {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
             if section.sh_type == SHT_RELA
@@ -67,13 +69,6 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 return Err(format!("no symbol table for section {} '{}'.", i, name))
                     .map_path_err(self.input.path);
             }
-            if SKIPPED_SECTIONS.contains(&section.sh_type) {
-                continue;
-            }
-            if !is_valid_alignment(section.sh_addralign) {
-                return Err(format!("invalid alignment of section {} '{}'.", i, name))
-                    .map_path_err(self.input.path);
-            }
             let data = section
                 .file_range()
                 .map(|r| {
@@ -84,6 +79,13 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 })
                 .transpose()
                 .map_path_err(self.input.path)?;
+            if SKIPPED_SECTIONS.contains(&section.sh_type) {
+                continue;
+            }
+            if !is_valid_alignment(section.sh_addralign) {
+                return Err(format!("invalid alignment of section {} '{}'.", i, name))
+                    .map_path_err(self.input.path);
+            }
             let section_ref = writer
                 .push_section(name.to_owned(), section, data)
                 .map_path_err(self.input.path)?;
-- 
2.43.0


From cb11925522df52e784aaf3d508aae063718dee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:07:56 +0000
Subject: [PATCH 39/57] fix: refuse relocations of thread-local storage

There's no PT_TLS segment, and the values of the fields were addresses rather than
offsets, such that the programs crashed.
---
 src/elf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 497103a..83f22ba 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -655,6 +655,9 @@ impl<'d> Writer<'d> {
                     r_type
                 )));
             }
+            R_X86_64_TLSGD | R_X86_64_GOTTPOFF | R_X86_64_TPOFF32 => {
+                return Err(ErrorType::Other("Thread-local storage is not implemented.".into()));
+            }
             _ => {}
         }
         section_ref.section.write().chunk_mut(section_ref.chunk).add_relocation(reloc, sym_ref);
-- 
2.43.0


From 0626f7f86346d880a6df114ccd50846d3bb5ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:07:58 +0000
Subject: [PATCH 40/57] fix: refuse definitions of indirect functions

The address of the resolver was taken for the one of the function.
---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6049dac..d13b533 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,7 +16,7 @@ use goblin::{
             SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA,
             SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::{STB_LOCAL, STT_OBJECT, STT_SECTION},
+        sym::{STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT, STT_SECTION},
     },
 };
 use std::{
@@ -107,6 +107,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         for (i, symbol) in elf.syms.iter().enumerate() {
             let name = get_symbol_name(elf, symbol.st_name).map_path_err(path)?;
             let sec_ref = self.section_relocations.get(&(symbol.st_shndx as usize));
+            if symbol.st_type() == STT_GNU_IFUNC && symbol.st_shndx as u32 != SHN_UNDEF {
+                return Err(format!("indirect function '{}' is not implemented.", name))
+                    .map_path_err(path);
+            }
             let known = match symbol.st_shndx as u32 {
                 SHN_UNDEF | SHN_ABS => true,
                 SHN_COMMON => is_valid_alignment(symbol.st_value),
-- 
2.43.0


From 7ae87cfbaed2b09ff3ec20f1fa22ae5dd8b998ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:07:59 +0000
Subject: [PATCH 41/57] fix: refuse SHT_REL sections

The addends, which are in the fields, were ignored.
---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d13b533..3fad1ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -63,6 +63,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
         {
             let name =
                 get_section_name(&self.elf, section.sh_name).map_path_err(self.input.path)?;
+            if section.sh_type == SHT_REL {
+                return Err(format!("relocations without addends in '{}'.", name))
+                    .map_path_err(self.input.path);
+            }
             if section.sh_type == SHT_RELA
                 && section.sh_link as usize >= self.elf.section_headers.len()
             {
-- 
2.43.0


From d1d1706cad17ad982e01ca3368b942709f9ef590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:17:38 +0000
Subject: [PATCH 42/57] fix: say whether the stack has to be executable

Programs with nested functions, whose objects ask for an executable stack, crashed.
---
 src/elf.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 83f22ba..624c709 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -3,7 +3,9 @@ use crate::{
 };
 use goblin::elf64::{
     header::{Header, ELFCLASS64, ELFDATA2LSB, ELFMAG, EM_X86_64, ET_EXEC, EV_CURRENT},
-    program_header::{ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_INTERP, PT_LOAD, PT_PHDR},
+    program_header::{
+        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_GNU_STACK, PT_INTERP, PT_LOAD, PT_PHDR,
+    },
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
@@ -1227,8 +1229,8 @@ impl<'d> Writer<'d> {
                 flags = sh.sh_flags;
             }
         }
-        // 3 == INTERP, DYNAMIC, PHDR
-        count + 3
+        // 4 == INTERP, DYNAMIC, GNU_STACK, PHDR
+        count + 4
     }
 
     fn generate_program_headers(&mut self) {
@@ -1295,6 +1297,17 @@ impl<'d> Writer<'d> {
                 )
             }
         }
+        let stack_flags = PF_R | PF_W | if self.needs_executable_stack() { PF_X } else { 0 };
+        self.program_headers.push(ProgramHeader {
+            p_type: PT_GNU_STACK,
+            p_flags: stack_flags,
+            p_offset: 0,
+            p_vaddr: 0,
+            p_paddr: 0,
+            p_filesz: 0,
+            p_memsz: 0,
+            p_align: 16,
+        });
         self.program_headers.insert(
             0,
             ProgramHeader {
@@ -1310,6 +1323,17 @@ impl<'d> Writer<'d> {
         );
     }
 
+    /// Whether one of the objects asks for it.
+    fn needs_executable_stack(&self) -> bool {
+        let section_names = as_str_tab(&self.shstr_section);
+        section_names.sh_name(".note.GNU-stack").map_or(false, |sh_name| {
+            self.sections.iter().any(|s| {
+                let sh = s.read();
+                sh.sh_name == sh_name && sh.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR
+            })
+        })
+    }
+
     fn add_dyn_entries(&mut self) {
         for sh in &self.sections {
             try_add_dyn_entries(
-- 
2.43.0


From 1fac206eee7cfaa6abf60f14bac35c8937ee5896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:31:01 +0000
Subject: [PATCH 43/57] fix: link members of archives where the archive is
 among the inputs

---
 src/elf.rs         | 34 +++++++++++++++++++++++++---------
 src/elf/chunk.rs   | 20 ++++++++++++++++----
 src/elf/section.rs | 17 +++++++++++++++--
 src/lib.rs         | 20 ++++++++++++++------
 src/main.rs        |  7 ++++---
 5 files changed, 74 insertions(+), 24 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 624c709..20087dd 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -154,6 +154,8 @@ pub struct Writer<'d> {
     sections: Vec<SectionPtr<'d>>,
     // the first sections are not there for the sections of the inputs
     num_synthetic_sections: usize,
+    // where the current input is among the inputs
+    position: Position,
     got_len: usize,
     got_plt: HashMap<SymbolRef, usize>,
     // where each symbol is defined
@@ -364,6 +366,7 @@ impl<'d> Writer<'d> {
             dyn_rels: vec![],
             plt_rels: vec![],
             num_synthetic_sections: sections.len(),
+            position: Default::default(),
             sections,
             // first entry reserved
             got_len: 1,
@@ -411,6 +414,8 @@ impl<'d> Writer<'d> {
             .inner_mut::<StringTable>()
             .unwrap()
             .get_or_create(name.clone());
+        let mut chunk = data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from);
+        chunk.place(sh.sh_addralign, priority, self.position);
         let (section, chunk) = if entry.new {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
@@ -425,8 +430,6 @@ impl<'d> Writer<'d> {
                 sh_addr: 0,
                 sh_offset: 0,
             };
-            let mut chunk = data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from);
-            chunk.set_init_priority(priority);
             let sh = Section::new(sh);
             sh.write().add_chunk(chunk);
             self.sections.push(Arc::clone(&sh));
@@ -436,9 +439,6 @@ impl<'d> Writer<'d> {
         } else {
             let section_ptr = Arc::clone(&self.sections[entry.index]);
             let mut section = self.sections[entry.index].write();
-            let padding = round_to(section.sh_size, sh.sh_addralign) - section.sh_size;
-            section.pad(padding);
-            section.sh_size += padding + sh.sh_size;
             if section.sh_type == SHT_NOBITS {
                 // the zeroes are going to be in the file if there's data as well
                 section.sh_type = sh.sh_type;
@@ -446,14 +446,17 @@ impl<'d> Writer<'d> {
             section.sh_addralign = std::cmp::max(section.sh_addralign, sh.sh_addralign);
             // the output section has to allow everything its parts need
             section.sh_flags |= sh.sh_flags & (SHF_ALLOC | SHF_WRITE | SHF_EXECINSTR) as u64;
-            let mut chunk = data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from);
-            chunk.set_init_priority(priority);
             let chunk = section.add_chunk(chunk);
             (section_ptr, chunk)
         };
         Ok(SectionRef { section, chunk })
     }
 
+    /// Everything that's added from now on belongs to the input at this position.
+    pub fn set_position(&mut self, position: Position) {
+        self.position = position;
+    }
+
     pub fn push_section(
         &mut self,
         name: impl Into<Name>,
@@ -606,6 +609,7 @@ impl<'d> Writer<'d> {
             .map(|(st_name, s)| (*st_name, s.st_size, s.st_value))
             .collect::<Vec<_>>();
         commons.sort_unstable();
+        self.position = Position::LAST;
         for (st_name, size, alignment) in commons {
             let sh = goblin::elf::SectionHeader {
                 sh_type: SHT_NOBITS,
@@ -964,8 +968,8 @@ impl<'d> Writer<'d> {
         }
 
         // there's nothing that refers to a chunk by its index from now on
-        for section in &mut self.sections {
-            section.write().chunks_mut().sort_by_key(|c| c.init_priority());
+        for section in &self.sections[self.num_synthetic_sections..] {
+            section.write().arrange_chunks();
         }
 
         self.scan_relocations();
@@ -1354,6 +1358,18 @@ fn remove_file(path: &Path) -> std::io::Result<()> {
     }
 }
 
+/// Where an input is: after how many objects, and after how many of the archives in between.
+#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
+pub struct Position {
+    pub objects: usize,
+    pub archives: usize,
+}
+
+impl Position {
+    /// Of what belongs to none of the inputs.
+    const LAST: Self = Self { objects: usize::MAX, archives: usize::MAX };
+}
+
 /// The functions which have no priority are the last ones of an array.
 const NO_INIT_PRIORITY: u32 = u32::MAX;
 
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index fb63340..a4c6d6b 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -9,7 +9,7 @@ use std::{
     io::Write,
 };
 
-use crate::elf::{plt_entry_addr, SymbolRef, SymbolTable, NO_INIT_PRIORITY};
+use crate::elf::{plt_entry_addr, Position, SymbolRef, SymbolTable, NO_INIT_PRIORITY};
 
 /// A part of a section.
 pub struct Chunk {
@@ -19,8 +19,11 @@ pub struct Chunk {
     zeroes: u64,
     symbols: HashSet<SymbolRef>,
     relocations: Vec<(Rela, SymbolRef)>,
+    alignment: u64,
     /// The order of the chunk within an array of functions.
     init_priority: u32,
+    /// Where the input that the chunk is from is among the inputs.
+    position: Position,
 }
 
 impl Chunk {
@@ -31,7 +34,9 @@ impl Chunk {
             zeroes: 0,
             symbols: Default::default(),
             relocations: vec![],
+            alignment: 1,
             init_priority: NO_INIT_PRIORITY,
+            position: Default::default(),
         }
     }
 
@@ -40,12 +45,19 @@ impl Chunk {
         Self { zeroes: size, ..Self::new(vec![]) }
     }
 
-    pub fn init_priority(&self) -> u32 {
-        self.init_priority
+    pub fn alignment(&self) -> u64 {
+        self.alignment
     }
 
-    pub fn set_init_priority(&mut self, init_priority: u32) {
+    /// What the chunks of a section are sorted by.
+    pub fn order(&self) -> (u32, Position) {
+        (self.init_priority, self.position)
+    }
+
+    pub fn place(&mut self, alignment: u64, init_priority: u32, position: Position) {
+        self.alignment = alignment;
         self.init_priority = init_priority;
+        self.position = position;
     }
 
     pub fn zeroes(&self) -> u64 {
diff --git a/src/elf/section.rs b/src/elf/section.rs
index fefb85a..328f835 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -10,7 +10,7 @@ use goblin::elf64::section_header::{SectionHeader, SHF_EXECINSTR, SHT_NOBITS};
 use parking_lot::RwLock;
 use std::sync::Arc;
 
-use super::{CopyRel, SymbolTable};
+use super::{round_to, CopyRel, SymbolTable};
 
 pub type SectionPtr<'p> = Arc<RwLock<Section<'p>>>;
 
@@ -167,8 +167,21 @@ impl<'p> Section<'p> {
         self.chunks.len() - 1
     }
 
+    /// Puts the chunks in order, and adds the padding that they need.
+    pub fn arrange_chunks(&mut self) {
+        let mut chunks = std::mem::take(&mut self.chunks);
+        chunks.sort_by_key(|c| c.order());
+        self.sh_size = 0;
+        for chunk in chunks {
+            let padding = round_to(self.sh_size, chunk.alignment()) - self.sh_size;
+            self.pad(padding);
+            self.sh_size += padding + chunk.size();
+            self.add_chunk(chunk);
+        }
+    }
+
     /// Adds some padding after the last chunk.
-    pub fn pad(&mut self, size: u64) {
+    fn pad(&mut self, size: u64) {
         let fill = if self.sh_flags as u32 & SHF_EXECINSTR == SHF_EXECINSTR { 0x90 } else { 0 };
         if self.sh_type == SHT_NOBITS {
             self.add_chunk(Chunk::zeroed(size));
diff --git a/src/lib.rs b/src/lib.rs
index 3fad1ff..bd89389 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -171,6 +171,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
 /// An archive, and the members of it which haven't been linked yet.
 struct LazyArchive<'p> {
     path: &'p Path,
+    position: elf::Position,
     data: Vec<u8>,
     /// Mapping from a symbol to the offset of the first member that defines it.
     symbols: HashMap<String, u64>,
@@ -178,7 +179,7 @@ struct LazyArchive<'p> {
 }
 
 impl<'p> LazyArchive<'p> {
-    fn new(path: &'p Path) -> Result<Self, Error<'p>> {
+    fn new(path: &'p Path, position: elf::Position) -> Result<Self, Error<'p>> {
         let data = read(path).map_path_err(path)?;
         let ar = Archive::parse(&data).map_path_err(path)?;
         let mut symbols = HashMap::new();
@@ -207,7 +208,7 @@ impl<'p> LazyArchive<'p> {
                 }
             }
         }
-        Ok(Self { path, symbols, members, data })
+        Ok(Self { path, position, symbols, members, data })
     }
 
     /// Where the member that defines `symbol` is, unless it has already been taken.
@@ -219,7 +220,8 @@ impl<'p> LazyArchive<'p> {
 pub struct Linker {
     pub options: crate::elf::Options,
     pub objects: Vec<PathBuf>,
-    pub archives: Vec<PathBuf>,
+    /// The archives, and how many of the objects precede each one of them.
+    pub archives: Vec<(PathBuf, usize)>,
 }
 
 impl Linker {
@@ -295,6 +297,7 @@ impl Linker {
                     found = true;
                     let input = Input { path: ar.path, data: &ar.data[member] };
                     let mut elf = input.to_elf_object()?;
+                    writer.set_position(ar.position);
                     elf.process_sections(writer)?;
                     elf.process_symbols(writer)?;
                     elf.process_relocations(writer)?;
@@ -306,8 +309,9 @@ impl Linker {
 
     pub fn link(&self) -> Result<(), Error<'_>> {
         let output = self.options.output.as_path();
+        let archives = self.archives.iter().map(|(ar, _)| ar);
         let shared_libs = self.options.shared_libs.iter().map(|(lib, _)| lib);
-        for input in self.objects.iter().chain(&self.archives).chain(shared_libs) {
+        for input in self.objects.iter().chain(archives).chain(shared_libs) {
             if input.canonicalize().ok() == output.canonicalize().ok() {
                 return Err(ErrorType::Other("the output is also an input.".into()))
                     .map_path_err(output);
@@ -327,7 +331,8 @@ impl Linker {
             .map(|(data, path)| Ok(Input { data, path }))
             .collect::<Result<Vec<Input>, Error<'_>>>()?;
         let mut elfs = Vec::with_capacity(inputs.len());
-        for input in &inputs {
+        for (i, input) in inputs.iter().enumerate() {
+            writer.set_position(elf::Position { objects: i + 1, archives: 0 });
             let mut elf = input.to_elf_object()?;
             elf.process_sections(&mut writer)?;
             elfs.push(elf);
@@ -339,7 +344,10 @@ impl Linker {
         let mut archives = self
             .archives
             .iter()
-            .map(|path| LazyArchive::new(path))
+            .enumerate()
+            .map(|(i, (path, objects))| {
+                LazyArchive::new(path, elf::Position { objects: *objects, archives: i + 1 })
+            })
             .collect::<Result<Vec<_>, Error<'_>>>()?;
         loop {
             let undefined = writer.undefined_symbols(false);
diff --git a/src/main.rs b/src/main.rs
index 96b8d3e..f9e7c3c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -35,7 +35,8 @@ OPTIONS:
 struct AppArgs {
     opts: Options,
     objects: Vec<PathBuf>,
-    archives: Vec<PathBuf>,
+    /// The archives, and how many of the objects precede each one of them.
+    archives: Vec<(PathBuf, usize)>,
     search_paths: Vec<PathBuf>,
     /// The scripts which list the current inputs.
     scripts: Vec<PathBuf>,
@@ -272,8 +273,8 @@ fn search_for_inputs(args: &mut AppArgs) -> Result<(), String> {
                 }
                 FileType::Archive => {
                     let archive = lib.canonicalize().unwrap();
-                    if !args.archives.contains(&archive) {
-                        args.archives.push(archive);
+                    if args.archives.iter().all(|(a, _)| *a != archive) {
+                        args.archives.push((archive, args.objects.len()));
                     }
                 }
                 FileType::ElfSharedLib => args.opts.shared_libs.push((lib, as_needed)),
-- 
2.43.0


From 7f39d2a17f0adb1963959405f83b5fc99c266eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:41:55 +0000
Subject: [PATCH 44/57] fix: definitions in COMDAT groups that several objects
 have made the link fail

---
 src/elf.rs | 16 +++++++++---
 src/lib.rs | 72 +++++++++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 75 insertions(+), 13 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 20087dd..9ea76de 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -8,9 +8,9 @@ use goblin::elf64::{
     },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC,
-        SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS,
-        SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_WRITE, SHN_ABS, SHN_UNDEF,
+        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
+        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{st_visibility, Sym, STV_DEFAULT, STV_PROTECTED},
 };
@@ -182,6 +182,8 @@ pub struct Writer<'d> {
     copy_rel_section: SectionPtr<'d>,
     // the dynamic symbols of what we define for the libraries
     exports: HashMap<SymbolRef, SymbolRef>,
+    // the signatures of the COMDAT groups
+    groups: HashSet<String>,
 }
 
 impl<'d> Writer<'d> {
@@ -392,6 +394,7 @@ impl<'d> Writer<'d> {
             gnu_hash_section,
             copy_rel_section,
             exports: HashMap::new(),
+            groups: HashSet::new(),
         })
     }
 
@@ -420,7 +423,7 @@ impl<'d> Writer<'d> {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
-                sh_flags: sh.sh_flags as u64,
+                sh_flags: sh.sh_flags as u64 & !(SHF_GROUP as u64),
                 sh_size: sh.sh_size,
                 sh_link: sh.sh_link,
                 sh_info: sh.sh_info,
@@ -457,6 +460,11 @@ impl<'d> Writer<'d> {
         self.position = position;
     }
 
+    /// Returns whether this is the first COMDAT group of that name.
+    pub fn add_group(&mut self, signature: &str) -> bool {
+        self.groups.insert(signature.to_string())
+    }
+
     pub fn push_section(
         &mut self,
         name: impl Into<Name>,
diff --git a/src/lib.rs b/src/lib.rs
index bd89389..56adf3a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,21 +13,25 @@ use goblin::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_NULL, SHT_REL, SHT_RELA,
-            SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL,
+            SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::{STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT, STT_SECTION},
+        sym::{st_bind, Sym, STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT, STT_SECTION},
     },
 };
 use std::{
-    collections::HashMap,
+    collections::{HashMap, HashSet},
+    convert::TryInto,
     fs::read,
     ops::Range,
     path::{Path, PathBuf},
 };
 
 const SKIPPED_SECTIONS: &[u32] =
-    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB];
+    &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB, SHT_GROUP];
+
+/// The flag of groups that several objects can have.
+const GRP_COMDAT: u32 = 1;
 
 /// There's no use for a larger alignment than this one.
 const MAX_ALIGNMENT: u64 = 1 << 24;
@@ -43,6 +47,8 @@ pub struct ElfObject<'i, 'p, 'd, 'e> {
     section_relocations: HashMap<usize, elf::SectionRef<'p>>,
     /// Mapping from the index of a symbol in this object to the linked symbol.
     symbols: HashMap<usize, elf::SymbolRef>,
+    /// The sections of COMDAT groups that an earlier object has as well.
+    repeated_sections: HashSet<usize>,
 }
 
 impl<'p, 'd> Input<'p, 'd> {
@@ -54,10 +60,46 @@ impl<'p, 'd> Input<'p, 'd> {
 
 impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
     pub fn new(input: &'i Input<'p, 'd>, elf: Elf<'e>) -> Self {
-        Self { input, elf, section_relocations: Default::default(), symbols: Default::default() }
+        Self {
+            input,
+            elf,
+            section_relocations: Default::default(),
+            symbols: Default::default(),
+            repeated_sections: Default::default(),
+        }
+    }
+
+    fn process_groups(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), ErrorType> {
+        let elf = &self.elf;
+        for (i, group) in
+            elf.section_headers.iter().enumerate().filter(|(_, sh)| sh.sh_type == SHT_GROUP)
+        {
+            let data = group.file_range().and_then(|r| self.input.data.get(r)).unwrap_or_default();
+            let mut words = data.chunks_exact(4).map(|w| u32::from_le_bytes(w.try_into().unwrap()));
+            let signature = elf.syms.get(group.sh_info as usize);
+            let (flags, signature) = match (words.next(), signature) {
+                (Some(flags), Some(signature)) => (flags, signature),
+                _ => return Err(format!("section {} is not a valid group.", i).into()),
+            };
+            let members = words.map(|w| w as usize).collect::<Vec<_>>();
+            if members.iter().any(|m| *m >= elf.section_headers.len()) {
+                return Err(format!("group {} has invalid sections.", i).into());
+            }
+            let name = match elf.section_headers.get(signature.st_shndx) {
+                Some(sh) if signature.st_type() == STT_SECTION => {
+                    get_section_name(elf, sh.sh_name)?
+                }
+                _ => get_symbol_name(elf, signature.st_name)?,
+            };
+            if flags & GRP_COMDAT != 0 && !writer.add_group(name) {
+                self.repeated_sections.extend(members);
+            }
+        }
+        Ok(())
     }
 
     pub fn process_sections(&mut self, writer: &mut elf::Writer<'p>) -> Result<(), Error<'p>> {
+        self.process_groups(writer).map_path_err(self.input.path)?;
         for (i, section) in
             self.elf.section_headers.iter().enumerate().filter(|(_, sh)| sh.sh_type != SHT_NULL)
         {
@@ -115,6 +157,11 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 return Err(format!("indirect function '{}' is not implemented.", name))
                     .map_path_err(path);
             }
+            let section = elf.section_headers.get(symbol.st_shndx);
+            if section.map_or(false, |sh| sh.sh_type == SHT_GROUP) {
+                // it only names the group
+                continue;
+            }
             let known = match symbol.st_shndx as u32 {
                 SHN_UNDEF | SHN_ABS => true,
                 SHN_COMMON => is_valid_alignment(symbol.st_value),
@@ -125,9 +172,16 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
                 return Err(format!("symbol '{}' is not in a valid section.", name))
                     .map_path_err(path);
             }
-            let symbol_ref = writer
-                .add_symbol(symbol.into(), sec_ref.cloned(), name, path)
-                .map_path_err(path)?;
+            let mut symbol = Sym::from(symbol);
+            if self.repeated_sections.contains(&(symbol.st_shndx as usize))
+                && st_bind(symbol.st_info) != STB_LOCAL
+            {
+                // the first one of the groups has the definition
+                symbol.st_shndx = SHN_UNDEF as u16;
+                symbol.st_value = 0;
+            }
+            let symbol_ref =
+                writer.add_symbol(symbol, sec_ref.cloned(), name, path).map_path_err(path)?;
             if let Some(sym) = symbol_ref {
                 self.symbols.insert(i, sym);
             }
-- 
2.43.0


From 1d229418f1026fd04a2925f9e06d77e75aea5052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:57:19 +0000
Subject: [PATCH 45/57] fix: compressed sections were relocated as if they
 weren't compressed

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 56adf3a..9cd5e6d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -13,8 +13,8 @@ use goblin::{
         header::{EM_X86_64, ET_DYN, ET_REL},
         reloc::Rela,
         section_header::{
-            SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP, SHT_NULL, SHT_REL,
-            SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
+            SHF_COMPRESSED, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP,
+            SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
         sym::{st_bind, Sym, STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT, STT_SECTION},
     },
@@ -128,6 +128,10 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
             if SKIPPED_SECTIONS.contains(&section.sh_type) {
                 continue;
             }
+            if section.sh_flags & u64::from(SHF_COMPRESSED) != 0 {
+                return Err(format!("section {} '{}' is compressed.", i, name))
+                    .map_path_err(self.input.path);
+            }
             if !is_valid_alignment(section.sh_addralign) {
                 return Err(format!("invalid alignment of section {} '{}'.", i, name))
                     .map_path_err(self.input.path);
-- 
2.43.0


From 3f5f986dd289774ed56b34d61b4d42fd76ddcf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:13:50 +0000
Subject: [PATCH 46/57] fix: exceptions were never caught, as --eh-frame-hdr
 had no effect

---
 src/elf.rs         | 75 ++++++++++++++++++++++++++++++++++++++++++++--
 src/elf/chunk.rs   | 24 +++++++++++++++
 src/elf/section.rs | 10 +++++--
 src/lib.rs         |  3 ++
 4 files changed, 106 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 9ea76de..98d1863 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -4,7 +4,8 @@ use crate::{
 use goblin::elf64::{
     header::{Header, ELFCLASS64, ELFDATA2LSB, ELFMAG, EM_X86_64, ET_EXEC, EV_CURRENT},
     program_header::{
-        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_GNU_STACK, PT_INTERP, PT_LOAD, PT_PHDR,
+        ProgramHeader, PF_R, PF_W, PF_X, PT_DYNAMIC, PT_GNU_EH_FRAME, PT_GNU_STACK, PT_INTERP,
+        PT_LOAD, PT_PHDR,
     },
     reloc::{r_type, Rela, *},
     section_header::{
@@ -184,6 +185,8 @@ pub struct Writer<'d> {
     exports: HashMap<SymbolRef, SymbolRef>,
     // the signatures of the COMDAT groups
     groups: HashSet<String>,
+    // where unwinders look for `.eh_frame`
+    eh_frame_hdr_section: Option<SectionPtr<'d>>,
 }
 
 impl<'d> Writer<'d> {
@@ -395,6 +398,7 @@ impl<'d> Writer<'d> {
             copy_rel_section,
             exports: HashMap::new(),
             groups: HashSet::new(),
+            eh_frame_hdr_section: None,
         })
     }
 
@@ -634,6 +638,46 @@ impl<'d> Writer<'d> {
         Ok(())
     }
 
+    /// The section of the inputs that has the given name, if any of them has one.
+    fn named_section(&self, name: &'static str) -> Option<&SectionPtr<'d>> {
+        let sh_name = as_str_tab(&self.shstr_section).sh_name(name)?;
+        self.sections.iter().find(|s| s.read().sh_name == sh_name)
+    }
+
+    /// Adds `.eh_frame_hdr`, if there is anything to refer to.
+    pub fn add_eh_frame_hdr(&mut self) -> Result<(), ErrorType> {
+        let is_loaded = |s: &SectionPtr| s.read().sh_flags as u32 & SHF_ALLOC == SHF_ALLOC;
+        if self.named_section(EH_FRAME_HDR).is_some()
+            || !self.named_section(EH_FRAME).map_or(false, is_loaded)
+        {
+            return Ok(());
+        }
+        let data = EH_FRAME_HDR_TEMPLATE.to_vec();
+        let sh = goblin::elf::SectionHeader {
+            sh_type: SHT_PROGBITS,
+            sh_flags: SHF_ALLOC as u64,
+            sh_size: data.len() as u64,
+            sh_addralign: align_of::<u32>() as u64,
+            ..Default::default()
+        };
+        let section_ref = self.add_section(EH_FRAME_HDR, &sh, Some(data))?;
+        self.eh_frame_hdr_section = Some(section_ref.section);
+        Ok(())
+    }
+
+    fn patch_eh_frame_hdr(&mut self) {
+        if let (Some(hdr), Some(eh_frame)) =
+            (&self.eh_frame_hdr_section, self.named_section(EH_FRAME))
+        {
+            let address = eh_frame.read().sh_addr as i64;
+            let mut hdr = hdr.write();
+            let distance: i32 = (address - (hdr.sh_addr as i64 + 4)).try_into().unwrap();
+            for chunk in hdr.chunks_mut().iter_mut().filter(|c| !c.is_empty()) {
+                chunk[4..8].copy_from_slice(&distance.to_le_bytes());
+            }
+        }
+    }
+
     pub fn is_undefined(&self, sym: SymbolRef) -> bool {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_undefined())
     }
@@ -976,8 +1020,11 @@ impl<'d> Writer<'d> {
         }
 
         // there's nothing that refers to a chunk by its index from now on
+        let eh_frame = as_str_tab(&self.shstr_section).sh_name(EH_FRAME);
         for section in &self.sections[self.num_synthetic_sections..] {
-            section.write().arrange_chunks();
+            let mut section = section.write();
+            let has_records = Some(section.sh_name) == eh_frame;
+            section.arrange_chunks(has_records);
         }
 
         self.scan_relocations();
@@ -1073,6 +1120,8 @@ impl<'d> Writer<'d> {
         self.add_dyn_entries();
 
         self.patch_plt_and_got_plt();
+
+        self.patch_eh_frame_hdr();
     }
 
     fn handle_relocations(&mut self) {
@@ -1242,7 +1291,7 @@ impl<'d> Writer<'d> {
             }
         }
         // 4 == INTERP, DYNAMIC, GNU_STACK, PHDR
-        count + 4
+        count + 4 + self.eh_frame_hdr_section.iter().count()
     }
 
     fn generate_program_headers(&mut self) {
@@ -1309,6 +1358,19 @@ impl<'d> Writer<'d> {
                 )
             }
         }
+        if let Some(sh) = &self.eh_frame_hdr_section {
+            let sh = sh.read();
+            self.program_headers.push(ProgramHeader {
+                p_type: PT_GNU_EH_FRAME,
+                p_flags: PF_R,
+                p_offset: sh.sh_offset,
+                p_vaddr: sh.sh_addr,
+                p_paddr: sh.sh_addr,
+                p_filesz: sh.sh_size,
+                p_memsz: sh.sh_size,
+                p_align: sh.sh_addralign,
+            });
+        }
         let stack_flags = PF_R | PF_W | if self.needs_executable_stack() { PF_X } else { 0 };
         self.program_headers.push(ProgramHeader {
             p_type: PT_GNU_STACK,
@@ -1378,6 +1440,13 @@ impl Position {
     const LAST: Self = Self { objects: usize::MAX, archives: usize::MAX };
 }
 
+const EH_FRAME: &str = ".eh_frame";
+const EH_FRAME_HDR: &str = ".eh_frame_hdr";
+
+/// The version, how the pointer to `.eh_frame` is encoded (as a signed offset of four bytes that's
+/// relative to itself), that there is no table of functions, and the pointer.
+const EH_FRAME_HDR_TEMPLATE: [u8; 8] = [1, 0x1b, 0xff, 0xff, 0, 0, 0, 0];
+
 /// The functions which have no priority are the last ones of an array.
 const NO_INIT_PRIORITY: u32 = u32::MAX;
 
diff --git a/src/elf/chunk.rs b/src/elf/chunk.rs
index a4c6d6b..b551862 100644
--- a/src/elf/chunk.rs
+++ b/src/elf/chunk.rs
@@ -7,6 +7,7 @@ use std::{
     collections::HashSet,
     convert::{TryFrom, TryInto},
     io::Write,
+    mem::size_of,
 };
 
 use crate::elf::{plt_entry_addr, Position, SymbolRef, SymbolTable, NO_INIT_PRIORITY};
@@ -69,6 +70,29 @@ impl Chunk {
         self.data.len() as u64 + self.zeroes
     }
 
+    /// Makes the last record of a chunk of `.eh_frame` larger by `size`. Returns whether that's
+    /// possible.
+    pub fn extend_last_record(&mut self, size: u64) -> bool {
+        let mut start = 0;
+        while let Some(length) = self.data.get(start..start + size_of::<u32>()) {
+            let length = u32::from_le_bytes(length.try_into().unwrap());
+            let contents = start + size_of::<u32>();
+            // those of a larger length have another one
+            if length == 0 || length as u64 + size >= 0xffff_fff0 {
+                break;
+            }
+            let end = contents + length as usize;
+            if end == self.data.len() {
+                let length = length + size as u32;
+                self.data[start..contents].copy_from_slice(&length.to_le_bytes());
+                self.data.resize(end + size as usize, 0);
+                return true;
+            }
+            start = end;
+        }
+        false
+    }
+
     pub fn add_symbol(&mut self, sym_ref: SymbolRef) {
         self.symbols.insert(sym_ref);
     }
diff --git a/src/elf/section.rs b/src/elf/section.rs
index 328f835..5ef0eb6 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -167,14 +167,18 @@ impl<'p> Section<'p> {
         self.chunks.len() - 1
     }
 
-    /// Puts the chunks in order, and adds the padding that they need.
-    pub fn arrange_chunks(&mut self) {
+    /// Puts the chunks in order, and adds the padding that they need. Zeroes would be the end of
+    /// the records of `.eh_frame`, so it's the last record before the padding that grows.
+    pub fn arrange_chunks(&mut self, has_records: bool) {
         let mut chunks = std::mem::take(&mut self.chunks);
         chunks.sort_by_key(|c| c.order());
         self.sh_size = 0;
         for chunk in chunks {
             let padding = round_to(self.sh_size, chunk.alignment()) - self.sh_size;
-            self.pad(padding);
+            let last = self.chunks.iter_mut().rev().find(|c| !c.is_empty());
+            if !(has_records && last.map_or(false, |c| c.extend_last_record(padding))) {
+                self.pad(padding);
+            }
             self.sh_size += padding + chunk.size();
             self.add_chunk(chunk);
         }
diff --git a/src/lib.rs b/src/lib.rs
index 9cd5e6d..88bd144 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -418,6 +418,9 @@ impl Linker {
         let undefined = writer.undefined_symbols(true);
         self.find_undefined_symbols_in_libs(&undefined, true, &mut writer)?;
         writer.allocate_common_symbols().map_path_err(self.options.output.as_path())?;
+        if self.options.eh_frame_hdr {
+            writer.add_eh_frame_hdr().map_path_err(self.options.output.as_path())?;
+        }
         writer.compute_sections();
         let undefined = writer.undefined_symbols(false);
         if !undefined.is_empty() {
-- 
2.43.0


From 6139ddd1425ae397526257594752928c25913772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:38:20 +0000
Subject: [PATCH 47/57] fix: an imported object had several copies if its names
 differ in their sizes

---
 src/elf.rs | 19 ++++++++++++++-----
 src/lib.rs |  1 -
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 98d1863..b647ff6 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -20,7 +20,7 @@ use parking_lot::{
     RwLockReadGuard as RGuard, RwLockWriteGuard as WGuard,
 };
 use std::{
-    cmp::Ordering,
+    cmp::{Ordering, Reverse},
     collections::{hash_map::Entry, HashMap, HashSet},
     convert::TryInto,
     fs::File,
@@ -1067,8 +1067,15 @@ impl<'d> Writer<'d> {
                 .filter_map(|s| s.dynamic().map(|d| (s, d)))
                 .collect::<Vec<_>>();
             imports.sort_unstable_by_key(|(s, _)| s.st_name);
-            // there is one copy of each object, no matter how many names it has
+            // there is one copy of each object, no matter how many names it has, that's as large as
+            // any of them says
             let mut copies = HashMap::new();
+            let mut largest = HashMap::new();
+            for dyn_symbol in dyn_syms.named_mut().values().filter(|s| s.is_object()) {
+                let name = (dyn_symbol.st_size, Reverse(dyn_symbol.st_name));
+                let other = largest.entry(copy_key(dyn_symbol)).or_insert(name);
+                *other = name.max(*other);
+            }
             for (sym, dyn_sym) in imports {
                 let index = dyn_sym_indices[&dyn_sym.st_name()];
                 if let Some(offset) = sym.got_offset() {
@@ -1076,8 +1083,10 @@ impl<'d> Writer<'d> {
                 }
                 let dyn_symbol = &mut dyn_syms.get_mut(dyn_sym).unwrap();
                 if dyn_symbol.is_object() {
-                    let size = dyn_symbol.st_size;
                     if let Entry::Vacant(copy) = copies.entry(copy_key(dyn_symbol)) {
+                        let (size, Reverse(name)) = largest[&copy_key(dyn_symbol)];
+                        let index =
+                            if dyn_symbol.st_size == size { index } else { dyn_sym_indices[&name] };
                         let offset = self
                             .copy_rel_section
                             .write()
@@ -1583,8 +1592,8 @@ fn p_type(names: &StringTable, sh: &SectionHeader) -> Option<u32> {
 }
 
 /// What all names of an imported object have in common.
-fn copy_key<'d>(sym: &Symbol<'d>) -> (&'d Path, Option<u64>, u64) {
-    (sym.reference(), sym.library_address(), sym.st_size)
+fn copy_key<'d>(sym: &Symbol<'d>) -> (&'d Path, Option<u64>) {
+    (sym.reference(), sym.library_address())
 }
 
 fn post_inc(v: &mut u64, inc: u64) -> u64 {
diff --git a/src/lib.rs b/src/lib.rs
index 88bd144..bbae848 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -468,7 +468,6 @@ fn is_alias(alias: &goblin::elf::Sym, sym: &goblin::elf::Sym) -> bool {
         && alias.st_type() == STT_OBJECT
         && alias.st_value == sym.st_value
         && alias.st_shndx == sym.st_shndx
-        && alias.st_size == sym.st_size
         && alias.st_name != sym.st_name
 }
 
-- 
2.43.0


From 45ef6c7ed6ec5343ac1bcc13f25f2d9049284bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:43:47 +0000
Subject: [PATCH 48/57] fix: calls of the protected functions of a library
 crashed

---
 src/elf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index b647ff6..b888110 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -532,6 +532,8 @@ impl<'d> Writer<'d> {
         // where the symbol is in the library is all we know about its alignment
         let alignment = 1 << elf_sym.st_value.trailing_zeros().min(PAGE_ALIGNMENT.trailing_zeros());
         let address = elf_sym.st_value;
+        // the loader doesn't look for symbols of another visibility
+        elf_sym.st_other = STV_DEFAULT;
         elf_sym.st_shndx = SHN_UNDEF as u16;
         elf_sym.st_value = 0;
         let r = Self::add_symbol_inner(
-- 
2.43.0


From 01d2ebc34186bf3d9f7dc43cf141b934aac79105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:57 +0000
Subject: [PATCH 49/57] fix: references with a hidden visibility didn't hide
 the definition

---
 src/elf/symbol_table.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 3c83535..4e8c858 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -5,7 +5,7 @@ use goblin::elf64::{
     section_header::{
         SectionHeader, SHF_ALLOC, SHN_UNDEF, SHT_DYNSYM, SHT_GNU_HASH, SHT_HASH, SHT_SYMTAB,
     },
-    sym::{st_type, Sym, STT_SECTION},
+    sym::{st_type, st_visibility, Sym, STT_SECTION, STV_DEFAULT},
 };
 use std::ops::Index;
 use std::{
@@ -133,6 +133,7 @@ impl<'p> SymbolTable<'p> {
                     old_sym.st_value = old_sym.st_value.max(new_sym.st_value);
                 }
                 let adopt = new_sym.precedence() > old_sym.precedence();
+                let visibility = merge_visibility(old_sym.st_other, new_sym.st_other);
                 if adopt {
                     old_sym.st_info = new_sym.st_info;
                     old_sym.st_other = new_sym.st_other;
@@ -143,6 +144,8 @@ impl<'p> SymbolTable<'p> {
                 } else if old_sym.is_undefined() && old_sym.is_weak() && new_sym.is_global() {
                     old_sym.st_info = new_sym.st_info;
                 }
+                // references hide a symbol just like its definition does
+                old_sym.st_other = (old_sym.st_other & !st_visibility(u8::MAX)) | visibility;
                 adopt
             }
             Entry::Vacant(v) => {
@@ -277,6 +280,14 @@ impl<'p> Synthesized<'p> for SymbolTable<'p> {
     }
 }
 
+/// Returns the most constraining visibility of two symbols.
+fn merge_visibility(st_other1: u8, st_other2: u8) -> u8 {
+    match (st_visibility(st_other1), st_visibility(st_other2)) {
+        (STV_DEFAULT, v) | (v, STV_DEFAULT) => v,
+        (v1, v2) => v1.min(v2),
+    }
+}
+
 fn calculate_bloom(bloom: &mut [u64], hash: u32, elfclass_bits: u32, bloom_shift: u32) {
     let index = ((hash / elfclass_bits) % bloom.len() as u32) as usize;
     bloom[index] |= 1_u64 << (hash % elfclass_bits);
-- 
2.43.0


From a35a0167a1029877e91da67d424bebd18a26f462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:19 +0000
Subject: [PATCH 50/57] fix: programs with more than 2 GiB of zero-initialised
 data weren't linked

---
 src/elf.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index b888110..4d3415b 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1451,6 +1451,9 @@ impl Position {
     const LAST: Self = Self { objects: usize::MAX, archives: usize::MAX };
 }
 
+/// May be far away from the code.
+const SHF_X86_64_LARGE: u64 = 0x1000_0000;
+
 const EH_FRAME: &str = ".eh_frame";
 const EH_FRAME_HDR: &str = ".eh_frame_hdr";
 
@@ -1607,22 +1610,20 @@ fn post_inc(v: &mut u64, inc: u64) -> u64 {
 fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
     let s1 = s1.read();
     let s2 = s2.read();
-    match s1.sh_flags.cmp(&s2.sh_flags) {
+    flags_order(s1.sh_flags)
+        .cmp(&flags_order(s2.sh_flags))
         // there is nothing for NOBITS sections in the file, so nothing can come after them
-        Ordering::Equal => (s1.sh_type == SHT_NOBITS)
-            .cmp(&(s2.sh_type == SHT_NOBITS))
-            .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse()),
-        // no flags should come last
-        o => {
-            if s1.sh_flags == 0 {
-                Ordering::Greater
-            } else if s2.sh_flags == 0 {
-                Ordering::Less
-            } else {
-                o
-            }
-        }
-    }
+        .then((s1.sh_type == SHT_NOBITS).cmp(&(s2.sh_type == SHT_NOBITS)))
+        .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse())
+}
+
+/// Zero-initialised data can be large, so plain writable sections come after the ones that have to
+/// be in reach of the code. No flags should come last.
+fn flags_order(sh_flags: u64) -> (bool, bool, bool, u64) {
+    let is_writable = sh_flags & SHF_WRITE as u64 != 0;
+    let is_large = sh_flags & SHF_X86_64_LARGE != 0;
+    let order = if is_writable { !sh_flags } else { sh_flags };
+    (sh_flags == 0, is_large, is_writable, order)
 }
 
 fn plt_entry_addr(base_addr: u64, index: usize) -> i64 {
-- 
2.43.0


From 9cd1f4a72dabdc38f56a187dfe3c12937145d98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:41 +0000
Subject: [PATCH 51/57] fix: large zero-initialised sections could come before
 others that have to be in reach

---
 src/elf.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/elf.rs b/src/elf.rs
index 4d3415b..6eb4933 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -1614,9 +1614,19 @@ fn section_cmp(s1: &SectionPtr, s2: &SectionPtr) -> Ordering {
         .cmp(&flags_order(s2.sh_flags))
         // there is nothing for NOBITS sections in the file, so nothing can come after them
         .then((s1.sh_type == SHT_NOBITS).cmp(&(s2.sh_type == SHT_NOBITS)))
+        .then(nobits_size(&s1).cmp(&nobits_size(&s2)))
         .then(s1.sh_addralign.cmp(&s2.sh_addralign).reverse())
 }
 
+/// The size of a section, if it is zero-initialised.
+fn nobits_size(section: &Section) -> u64 {
+    if section.sh_type == SHT_NOBITS {
+        section.sh_size
+    } else {
+        0
+    }
+}
+
 /// Zero-initialised data can be large, so plain writable sections come after the ones that have to
 /// be in reach of the code. No flags should come last.
 fn flags_order(sh_flags: u64) -> (bool, bool, bool, u64) {
-- 
2.43.0


From d104565e591ce47f576deca9df16cc88296d4110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 52/57] fix: large common symbols were refused

---
 src/elf.rs              | 11 ++++++-----
 src/elf/symbol_table.rs |  4 ++++
 src/lib.rs              |  3 ++-
 src/symbol.rs           |  9 ++++++++-
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 6eb4933..9e42e76 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -614,25 +614,26 @@ impl<'d> Writer<'d> {
         }
     }
 
-    /// Gives common symbols their space in `.bss`.
+    /// Gives common symbols their space in `.bss` or `.lbss`.
     pub fn allocate_common_symbols(&mut self) -> Result<(), ErrorType> {
         let mut commons = as_sym_tab(&self.sym_section)
             .named()
             .iter()
             .filter(|(_, s)| s.is_common())
-            .map(|(st_name, s)| (*st_name, s.st_size, s.st_value))
+            .map(|(st_name, s)| (*st_name, s.st_size, s.st_value, s.is_large_common()))
             .collect::<Vec<_>>();
         commons.sort_unstable();
         self.position = Position::LAST;
-        for (st_name, size, alignment) in commons {
+        for (st_name, size, alignment, is_large) in commons {
+            let (name, large) = if is_large { (".lbss", SHF_X86_64_LARGE) } else { (".bss", 0) };
             let sh = goblin::elf::SectionHeader {
                 sh_type: SHT_NOBITS,
-                sh_flags: (SHF_ALLOC | SHF_WRITE) as u64,
+                sh_flags: (SHF_ALLOC | SHF_WRITE) as u64 | large,
                 sh_size: size,
                 sh_addralign: alignment,
                 ..Default::default()
             };
-            let section_ref = self.add_section(".bss", &sh, None)?;
+            let section_ref = self.add_section(name, &sh, None)?;
             let sym_ref = SymbolRef::Named(st_name);
             as_mut_sym_tab(&self.sym_section).get_mut(sym_ref).unwrap().st_value = 0;
             self.definitions.insert(sym_ref, section_ref);
diff --git a/src/elf/symbol_table.rs b/src/elf/symbol_table.rs
index 4e8c858..aded602 100644
--- a/src/elf/symbol_table.rs
+++ b/src/elf/symbol_table.rs
@@ -131,6 +131,10 @@ impl<'p> SymbolTable<'p> {
                     old_sym.st_size = old_sym.st_size.max(new_sym.st_size);
                     // this is the alignment of a common symbol
                     old_sym.st_value = old_sym.st_value.max(new_sym.st_value);
+                    if old_sym.is_large_common() {
+                        // the new one might have to be in reach
+                        old_sym.st_shndx = new_sym.st_shndx;
+                    }
                 }
                 let adopt = new_sym.precedence() > old_sym.precedence();
                 let visibility = merge_visibility(old_sym.st_other, new_sym.st_other);
diff --git a/src/lib.rs b/src/lib.rs
index bbae848..2cbda90 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,6 +26,7 @@ use std::{
     ops::Range,
     path::{Path, PathBuf},
 };
+use symbol::SHN_X86_64_LCOMMON;
 
 const SKIPPED_SECTIONS: &[u32] =
     &[SHT_SYMTAB, SHT_DYNSYM, SHT_STRTAB, SHT_RELA, SHT_DYNAMIC, SHT_REL, SHT_SHLIB, SHT_GROUP];
@@ -168,7 +169,7 @@ impl<'i, 'p, 'd, 'e> ElfObject<'i, 'p, 'd, 'e> {
             }
             let known = match symbol.st_shndx as u32 {
                 SHN_UNDEF | SHN_ABS => true,
-                SHN_COMMON => is_valid_alignment(symbol.st_value),
+                SHN_COMMON | SHN_X86_64_LCOMMON => is_valid_alignment(symbol.st_value),
                 i if symbol.st_type() == STT_SECTION => (i as usize) < elf.section_headers.len(),
                 _ => sec_ref.is_some(),
             };
diff --git a/src/symbol.rs b/src/symbol.rs
index 799ad3a..e647fb3 100644
--- a/src/symbol.rs
+++ b/src/symbol.rs
@@ -10,6 +10,9 @@ use goblin::elf64::{
     sym::{Sym, STB_GLOBAL, STB_LOCAL, STB_WEAK, STT_OBJECT, STT_TLS},
 };
 
+/// A common symbol which may be far away from the code.
+pub const SHN_X86_64_LCOMMON: u32 = 0xff02;
+
 #[derive(Debug, Clone, Copy)]
 pub struct Symbol<'r> {
     pub sym: Sym,
@@ -77,7 +80,11 @@ impl<'r> Symbol<'r> {
     }
 
     pub const fn is_common(&self) -> bool {
-        self.sym.st_shndx == SHN_COMMON as u16
+        self.sym.st_shndx == SHN_COMMON as u16 || self.is_large_common()
+    }
+
+    pub const fn is_large_common(&self) -> bool {
+        self.sym.st_shndx == SHN_X86_64_LCOMMON as u16
     }
 
     pub const fn reference(&self) -> &'r Path {
-- 
2.43.0


From b022b1eb155c28120063479ea9cdc78d598b5fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 53/57] fix: the section headers of the output kept references
 to the input's sections

---
 src/elf.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 9e42e76..32fa9c0 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -9,9 +9,9 @@ use goblin::elf64::{
     },
     reloc::{r_type, Rela, *},
     section_header::{
-        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_WRITE, SHN_ABS, SHN_UNDEF,
-        SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY,
-        SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_INFO_LINK, SHF_LINK_ORDER,
+        SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH,
+        SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{st_visibility, Sym, STV_DEFAULT, STV_PROTECTED},
 };
@@ -68,6 +68,9 @@ impl std::fmt::Debug for SectionRef<'_> {
     }
 }
 
+/// The flags that speak of other sections of the object.
+const INPUT_FLAGS: u64 = (SHF_GROUP | SHF_INFO_LINK | SHF_LINK_ORDER) as u64;
+
 const PLT_ENTRY_JMP_INSTR_SIZE: isize = 6;
 const PLT_ENTRY_PUSH_INSTR_SIZE: usize = 5;
 // The PLT header is just as big.
@@ -427,10 +430,10 @@ impl<'d> Writer<'d> {
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
-                sh_flags: sh.sh_flags as u64 & !(SHF_GROUP as u64),
+                sh_flags: sh.sh_flags as u64 & !INPUT_FLAGS,
                 sh_size: sh.sh_size,
-                sh_link: sh.sh_link,
-                sh_info: sh.sh_info,
+                sh_link: 0,
+                sh_info: 0,
                 sh_entsize: sh.sh_entsize,
                 sh_addralign: sh.sh_addralign,
                 // patched later on
-- 
2.43.0


From 4d910238a457a6f2e7a38b476547eebdfa2ce0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:21 +0000
Subject: [PATCH 54/57] fix: inputs of thousands of names or common symbols
 took very long

---
 src/elf/section.rs      |  8 ++++++--
 src/elf/string_table.rs | 28 ++++++++++++++--------------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/elf/section.rs b/src/elf/section.rs
index 5ef0eb6..24350b9 100644
--- a/src/elf/section.rs
+++ b/src/elf/section.rs
@@ -175,8 +175,12 @@ impl<'p> Section<'p> {
         self.sh_size = 0;
         for chunk in chunks {
             let padding = round_to(self.sh_size, chunk.alignment()) - self.sh_size;
-            let last = self.chunks.iter_mut().rev().find(|c| !c.is_empty());
-            if !(has_records && last.map_or(false, |c| c.extend_last_record(padding))) {
+            let last = if has_records {
+                self.chunks.iter_mut().rev().find(|c| !c.is_empty())
+            } else {
+                None
+            };
+            if !last.map_or(false, |c| c.extend_last_record(padding)) {
                 self.pad(padding);
             }
             self.sh_size += padding + chunk.size();
diff --git a/src/elf/string_table.rs b/src/elf/string_table.rs
index 36aea96..3eb6e8b 100644
--- a/src/elf/string_table.rs
+++ b/src/elf/string_table.rs
@@ -17,13 +17,16 @@ pub struct Entry {
 pub struct StringTable {
     // name -> (index, offset)
     names: HashMap<Name, (usize, usize)>,
+    // the names by their offset, in ascending order
+    offsets: Vec<(usize, Name)>,
     total_len: usize,
     section_strtab: Option<usize>,
 }
 
 impl Default for StringTable {
     fn default() -> Self {
-        let mut table = Self { names: Default::default(), total_len: 0, section_strtab: None };
+        let mut table =
+            Self { names: Default::default(), offsets: vec![], total_len: 0, section_strtab: None };
         table.get_or_create("");
         table
     }
@@ -38,19 +41,15 @@ impl StringTable {
     }
 
     pub fn get_or_create(&mut self, name: impl Into<Name>) -> Entry {
-        let mut new = false;
-        let mut add_len = 0;
         let name = name.into();
-        let name_len = name.len();
-        let v = self.total_len;
-        let len = self.names.len();
-        let (i, offset) = self.names.entry(name).or_insert_with(|| {
-            add_len = name_len + 1;
-            new = true;
-            (len, v)
-        });
-        self.total_len += add_len;
-        Entry { index: *i, offset: *offset, new }
+        if let Some((index, offset)) = self.names.get(&name) {
+            return Entry { index: *index, offset: *offset, new: false };
+        }
+        let (index, offset) = (self.names.len(), self.total_len);
+        self.total_len += name.len() + 1;
+        self.offsets.push((offset, name.clone()));
+        self.names.insert(name, (index, offset));
+        Entry { index, offset, new: true }
     }
 
     pub fn get(&self, name: impl Into<Name>) -> Option<Entry> {
@@ -63,7 +62,8 @@ impl StringTable {
     }
 
     pub fn name(&self, offset: usize) -> Option<&Name> {
-        self.names.iter().find(|(_, v)| v.1 == offset).map(|(k, _)| k)
+        let i = self.offsets.binary_search_by_key(&offset, |(o, _)| *o).ok()?;
+        Some(&self.offsets[i].1)
     }
 
     pub fn total_len(&self) -> usize {
-- 
2.43.0


From 1fed7a862b550fa333bb31a055e6fc300e8b3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:24 +0000
Subject: [PATCH 55/57] fix: thousands of imports took very long

---
 src/lib.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2cbda90..9abffcb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -298,9 +298,14 @@ impl Linker {
             let data = read(path).map_path_err(path)?;
             let elf = parse_elf(&data, ET_DYN).map_path_err(path)?;
             let mut definitions = HashMap::new();
+            // the names of each object
+            let mut objects = HashMap::<_, Vec<_>>::new();
             for sym in elf.dynsyms.iter().filter(|s| is_exported(s)) {
                 let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
                 definitions.entry(name).or_insert(sym);
+                if sym.st_type() == STT_OBJECT {
+                    objects.entry((sym.st_shndx, sym.st_value)).or_default().push((name, sym));
+                }
             }
             let mut needed = !as_needed;
             let mut not_found = vec![];
@@ -310,14 +315,17 @@ impl Linker {
                 } else {
                     continue;
                 };
-                if let Some(sym) = definitions.get(name.as_str()) {
+                if let Some(sym) = definitions.get(name.as_str()).copied() {
                     needed = true;
                     if import {
-                        writer.add_dyn_symbol((*sym).into(), &name, path).map_path_err(path)?;
-                        for alias in elf.dynsyms.iter().filter(|a| is_alias(a, sym)) {
-                            let name =
-                                get_dyn_symbol_name(&elf, alias.st_name).map_path_err(path)?;
-                            writer.add_dyn_alias(alias.into(), name, path).map_path_err(path)?;
+                        writer.add_dyn_symbol(sym.into(), &name, path).map_path_err(path)?;
+                        let aliases = if sym.st_type() == STT_OBJECT {
+                            objects.remove(&(sym.st_shndx, sym.st_value)).unwrap_or_default()
+                        } else {
+                            vec![]
+                        };
+                        for (alias, sym) in aliases {
+                            writer.add_dyn_alias(sym.into(), alias, path).map_path_err(path)?;
                         }
                     }
                 } else {
@@ -462,16 +470,6 @@ fn is_exported(sym: &goblin::elf::Sym) -> bool {
     sym.st_shndx != SHN_UNDEF as usize && sym.st_bind() != STB_LOCAL
 }
 
-/// Whether a library has another name for the object `sym`.
-fn is_alias(alias: &goblin::elf::Sym, sym: &goblin::elf::Sym) -> bool {
-    is_exported(alias)
-        && sym.st_type() == STT_OBJECT
-        && alias.st_type() == STT_OBJECT
-        && alias.st_value == sym.st_value
-        && alias.st_shndx == sym.st_shndx
-        && alias.st_name != sym.st_name
-}
-
 fn get_section_name<'e>(elf: &Elf<'e>, index: usize) -> Result<&'e str, String> {
     elf.shdr_strtab.get_at(index).ok_or_else(|| "Symbol not found in strtab.".to_string())
 }
-- 
2.43.0


From 29bf108447274f337bc831487c0dedee87c2c633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:37 +0000
Subject: [PATCH 56/57] fix: outputs of more sections than the header can count
 were malformed

---
 src/elf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 32fa9c0..953bf31 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -10,8 +10,8 @@ use goblin::elf64::{
     reloc::{r_type, Rela, *},
     section_header::{
         SectionHeader, SHF_ALLOC, SHF_EXECINSTR, SHF_GROUP, SHF_INFO_LINK, SHF_LINK_ORDER,
-        SHF_WRITE, SHN_ABS, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY, SHT_GNU_HASH,
-        SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
+        SHF_WRITE, SHN_ABS, SHN_LORESERVE, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_FINI_ARRAY,
+        SHT_GNU_HASH, SHT_HASH, SHT_INIT_ARRAY, SHT_NOBITS, SHT_PROGBITS, SHT_RELA, SHT_STRTAB,
     },
     sym::{st_visibility, Sym, STV_DEFAULT, STV_PROTECTED},
 };
@@ -427,6 +427,10 @@ impl<'d> Writer<'d> {
         let mut chunk = data.map_or_else(|| Chunk::zeroed(sh.sh_size), Chunk::from);
         chunk.place(sh.sh_addralign, priority, self.position);
         let (section, chunk) = if entry.new {
+            // there's also the null section
+            if self.sections.len() + 1 >= SHN_LORESERVE as usize {
+                return Err(ErrorType::Other("there are too many sections.".into()));
+            }
             let sh = SectionHeader {
                 sh_name: entry.offset as u32,
                 sh_type: sh.sh_type,
-- 
2.43.0


From ade302a7c7a9cbddaacc9fe45c496cc53e7764d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:20 +0000
Subject: [PATCH 57/57] fix: archive members that only a shared library wants
 were not linked

---
 src/elf.rs |  5 +++++
 src/lib.rs | 34 +++++++++++++++++++++++-----------
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/elf.rs b/src/elf.rs
index 953bf31..fce7aab 100644
--- a/src/elf.rs
+++ b/src/elf.rs
@@ -692,6 +692,11 @@ impl<'d> Writer<'d> {
         as_sym_tab(&self.sym_section).get(sym).map_or(false, |s| s.is_undefined())
     }
 
+    /// Whether one of the inputs defines the global or weak symbol of that name.
+    pub fn is_defined(&self, name: &str) -> bool {
+        self.named_symbol(name).map_or(false, |s| !self.is_undefined(s))
+    }
+
     /// Returns the undefined symbols in the order in which they were first mentioned. It's fine
     /// for weak ones to stay undefined.
     pub fn undefined_symbols(&self, with_weak: bool) -> Vec<SymbolRef> {
diff --git a/src/lib.rs b/src/lib.rs
index 9abffcb..0915972 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -16,7 +16,7 @@ use goblin::{
             SHF_COMPRESSED, SHN_ABS, SHN_COMMON, SHN_UNDEF, SHT_DYNAMIC, SHT_DYNSYM, SHT_GROUP,
             SHT_NULL, SHT_REL, SHT_RELA, SHT_SHLIB, SHT_STRTAB, SHT_SYMTAB,
         },
-        sym::{st_bind, Sym, STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT, STT_SECTION},
+        sym::{st_bind, Sym, STB_GLOBAL, STB_LOCAL, STT_GNU_IFUNC, STT_OBJECT, STT_SECTION},
     },
 };
 use std::{
@@ -284,15 +284,18 @@ pub struct Linker {
 }
 
 impl Linker {
-    /// Returns the symbols that are not defined by any of the libraries. The others are going to
-    /// be imported, if `import` is set.
+    /// Returns the names that are not defined by any of the libraries: those of the symbols, and
+    /// then those that the needed libraries leave to the program. The other symbols are going to be
+    /// imported, if `import` is set.
     fn find_undefined_symbols_in_libs<'o>(
         &'o self,
         symbols: &[elf::SymbolRef],
         import: bool,
         writer: &mut elf::Writer<'o>,
-    ) -> Result<Vec<elf::SymbolRef>, Error<'o>> {
+    ) -> Result<Vec<String>, Error<'o>> {
         let mut undefines = symbols.to_vec();
+        let mut defined_by_libs = HashSet::new();
+        let mut left_by_libs = vec![];
         for (lib, as_needed) in &self.options.shared_libs {
             let path = lib.as_path();
             let data = read(path).map_path_err(path)?;
@@ -340,27 +343,36 @@ impl Linker {
                 let file_name = path.file_name().unwrap().to_str().unwrap();
                 writer.add_needed(elf.soname.unwrap_or(file_name));
             }
+            for sym in elf.dynsyms.iter().filter(|s| s.st_name != 0) {
+                let name = get_dyn_symbol_name(&elf, sym.st_name).map_path_err(path)?;
+                if is_exported(&sym) {
+                    defined_by_libs.insert(name.to_string());
+                } else if needed && sym.st_bind() == STB_GLOBAL {
+                    left_by_libs.push(name.to_string());
+                }
+            }
             undefines = not_found;
         }
-        Ok(undefines)
+        left_by_libs.retain(|name| !defined_by_libs.contains(name));
+        let names = undefines.iter().filter_map(|s| writer.symbol_name(*s).map(|n| n.to_string()));
+        Ok(names.chain(left_by_libs).collect())
     }
 
-    /// Links the members that define `symbols`. Returns whether there were any.
+    /// Links the members that define `names`. Returns whether there were any.
     fn process_archives_containing<'o>(
         &'o self,
         archives: &mut [LazyArchive<'o>],
-        symbols: &[elf::SymbolRef],
+        names: &[String],
         writer: &mut elf::Writer<'o>,
     ) -> Result<bool, Error<'o>> {
         let mut found = false;
         for ar in archives {
-            for symbol in symbols {
+            for name in names {
                 // the symbol might be defined by one of the members we've just linked
-                if !writer.is_undefined(*symbol) {
+                if writer.is_defined(name) {
                     continue;
                 }
-                let member = writer.symbol_name(*symbol).and_then(|name| ar.take_member(&*name));
-                if let Some(member) = member {
+                if let Some(member) = ar.take_member(name) {
                     found = true;
                     let input = Input { path: ar.path, data: &ar.data[member] };
                     let mut elf = input.to_elf_object()?;
-- 
2.43.0

