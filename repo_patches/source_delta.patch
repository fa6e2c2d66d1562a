From f718cf80f7dcdd00eff4d960e64320a854c8cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 01/18] hooks: simulated storage and environment for
 circuit_reader (cfg verif_sim)

---
 .../src/bin/gen_spartan_inst.rs               |   9 ++
 packages/circuit_reader/src/circom_reader.rs  |   3 +
 packages/circuit_reader/src/lib.rs            |   5 +
 packages/circuit_reader/src/sim_env.rs        | 103 ++++++++++++++++++
 4 files changed, 120 insertions(+)
 create mode 100644 packages/circuit_reader/src/sim_env.rs

diff --git a/packages/circuit_reader/src/bin/gen_spartan_inst.rs b/packages/circuit_reader/src/bin/gen_spartan_inst.rs
index 3edb39f..3ea50e3 100644
--- a/packages/circuit_reader/src/bin/gen_spartan_inst.rs
+++ b/packages/circuit_reader/src/bin/gen_spartan_inst.rs
@@ -1,10 +1,19 @@
 #![allow(non_snake_case)]
 use bincode;
 use circuit_reader::load_as_spartan_inst;
+#[cfg(verif_sim)]
+use circuit_reader::sim_env::{args, current_dir, File};
+#[cfg(not(verif_sim))]
 use std::env::{args, current_dir};
+#[cfg(not(verif_sim))]
 use std::fs::File;
 use std::io::Write;
 
+#[cfg(verif_sim)]
+pub fn sim_main() {
+    main()
+}
+
 fn main() {
     let circom_r1cs_path = args().nth(1).unwrap();
     let output_path = args().nth(2).unwrap();
diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index cae09df..900cde9 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -39,6 +39,9 @@ pub struct R1CSFile<Fr: PrimeField> {
     pub constraints: Vec<Constraint<Fr>>,
     pub wire_mapping: Vec<u64>,
 }
+#[cfg(verif_sim)]
+use crate::sim_env::OpenOptions;
+#[cfg(not(verif_sim))]
 use std::fs::OpenOptions;
 use std::path::Path;
 
diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 1efd3ff..6fe1d99 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -1,4 +1,9 @@
+#[cfg(not(verif_sim))]
 mod circom_reader;
+#[cfg(verif_sim)]
+pub mod circom_reader;
+#[cfg(verif_sim)]
+pub mod sim_env;
 
 use circom_reader::{load_r1cs_from_bin_file, R1CS};
 use ff::PrimeField;
diff --git a/packages/circuit_reader/src/sim_env.rs b/packages/circuit_reader/src/sim_env.rs
new file mode 100644
index 0000000..b543e55
--- /dev/null
+++ b/packages/circuit_reader/src/sim_env.rs
@@ -0,0 +1,103 @@
+//! Stand-ins for the parts of `std::fs` and `std::env` the crate uses, so that a simulator can
+//! decide what storage does. Only compiled with `--cfg verif_sim`.
+use std::cell::RefCell;
+use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
+use std::path::{Path, PathBuf};
+use std::rc::Rc;
+
+/// An open simulated file.
+pub trait SimFile {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize>;
+    fn write(&mut self, buf: &[u8]) -> Result<usize>;
+    fn seek(&mut self, pos: SeekFrom) -> Result<u64>;
+    fn sync(&mut self) -> Result<()>;
+}
+
+/// What the simulator provides.
+pub trait SimEnv {
+    fn args(&self) -> Vec<String>;
+    fn current_dir(&self) -> Result<PathBuf>;
+    fn open(&self, path: &Path) -> Result<Box<dyn SimFile>>;
+    fn create(&self, path: &Path) -> Result<Box<dyn SimFile>>;
+    fn rename(&self, from: &Path, to: &Path) -> Result<()>;
+}
+
+thread_local! {
+    static ENV: RefCell<Option<Rc<dyn SimEnv>>> = RefCell::new(None);
+}
+
+pub fn set_env(env: Option<Rc<dyn SimEnv>>) -> Option<Rc<dyn SimEnv>> {
+    ENV.with(|e| std::mem::replace(&mut *e.borrow_mut(), env))
+}
+
+fn env() -> Result<Rc<dyn SimEnv>> {
+    ENV.with(|e| e.borrow().clone())
+        .ok_or_else(|| Error::new(ErrorKind::Other, "no simulated environment"))
+}
+
+pub fn args() -> std::vec::IntoIter<String> {
+    env().map(|e| e.args()).unwrap_or_default().into_iter()
+}
+
+pub fn current_dir() -> Result<PathBuf> {
+    env()?.current_dir()
+}
+
+pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> Result<()> {
+    env()?.rename(from.as_ref(), to.as_ref())
+}
+
+pub struct File(Box<dyn SimFile>);
+
+impl File {
+    pub fn open<P: AsRef<Path>>(path: P) -> Result<File> {
+        Ok(File(env()?.open(path.as_ref())?))
+    }
+
+    pub fn create<P: AsRef<Path>>(path: P) -> Result<File> {
+        Ok(File(env()?.create(path.as_ref())?))
+    }
+
+    pub fn sync_all(&mut self) -> Result<()> {
+        self.0.sync()
+    }
+}
+
+impl Read for File {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+        self.0.read(buf)
+    }
+}
+
+impl Write for File {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        self.0.write(buf)
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        Ok(())
+    }
+}
+
+impl Seek for File {
+    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
+        self.0.seek(pos)
+    }
+}
+
+pub struct OpenOptions;
+
+impl OpenOptions {
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> Self {
+        OpenOptions
+    }
+
+    pub fn read(&mut self, _read: bool) -> &mut Self {
+        self
+    }
+
+    pub fn open<P: AsRef<Path>>(&self, path: P) -> Result<File> {
+        File::open(path)
+    }
+}
-- 
2.43.0


From 2b49845f56506e1ae79895f82a2db0621874d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 02/18] fix: read circom field elements as little-endian

Coefficients and witness values were read into the big-endian canonical representation, so values
whose byte reversal is not below the modulus (for example 2^224 - 1) could not be loaded.
---
 packages/circuit_reader/src/circom_reader.rs |  3 ++-
 packages/circuit_reader/src/lib.rs           | 17 ++++++++++-------
 packages/spartan_wasm/src/wasm.rs            |  9 +++++++--
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 900cde9..b04f52e 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -72,9 +72,10 @@ pub fn load_r1cs_from_bin<G1: Group, R: Read + Seek>(reader: R) -> (R1CS<G1::Sca
 pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
     let mut repr = Fr::zero().to_repr();
     for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
+    // The file stores field elements in little-endian; the canonical representation is big-endian
+    repr.as_mut().reverse();
     let fr = Fr::from_repr(repr).unwrap();
     Ok(fr)
 }
diff --git a/packages/circuit_reader/src/lib.rs b/packages/circuit_reader/src/lib.rs
index 6fe1d99..0ded51b 100644
--- a/packages/circuit_reader/src/lib.rs
+++ b/packages/circuit_reader/src/lib.rs
@@ -18,6 +18,13 @@ pub fn load_as_spartan_inst(circuit_file: PathBuf, num_pub_inputs: usize) -> Ins
     spartan_inst
 }
 
+// Spartan takes field elements in little-endian; the canonical representation is big-endian
+fn to_bytes_le<F: PrimeField<Repr = FieldBytes>>(x: &F) -> [u8; 32] {
+    let mut bytes: [u8; 32] = x.to_repr().into();
+    bytes.reverse();
+    bytes
+}
+
 fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
     r1cs: &R1CS<F>,
     num_pub_inputs: usize,
@@ -34,19 +41,15 @@ fn convert_to_spartan_r1cs<F: PrimeField<Repr = FieldBytes>>(
         let (a, b, c) = constraint;
 
         for (j, coeff) in a.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
-
-            A.push((i, *j, bytes));
+            A.push((i, *j, to_bytes_le(coeff)));
         }
 
         for (j, coeff) in b.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
-            B.push((i, *j, bytes));
+            B.push((i, *j, to_bytes_le(coeff)));
         }
 
         for (j, coeff) in c.iter() {
-            let bytes: [u8; 32] = coeff.to_repr().into();
-            C.push((i, *j, bytes));
+            C.push((i, *j, to_bytes_le(coeff)));
         }
     }
 
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 465e57d..2cf3998 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -21,7 +21,11 @@ pub fn prove(circuit: &[u8], vars: &[u8], public_inputs: &[u8]) -> Result<Vec<u8
     let witness = load_witness_from_bin_reader::<F1, _>(vars).unwrap();
     let witness_bytes = witness
         .iter()
-        .map(|w| w.to_repr().into())
+        .map(|w| {
+            let mut bytes: [u8; 32] = w.to_repr().into();
+            bytes.reverse();
+            bytes
+        })
         .collect::<Vec<[u8; 32]>>();
 
     let assignment = Assignment::new(&witness_bytes).unwrap();
@@ -100,9 +104,10 @@ pub fn poseidon(input_bytes: &[u8]) -> Result<Vec<u8>, JsValue> {
 pub fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr, Error> {
     let mut repr = Fr::zero().to_repr();
     for digit in repr.as_mut().iter_mut() {
-        // TODO: may need to reverse order?
         *digit = reader.read_u8()?;
     }
+    // The file stores field elements in little-endian; the canonical representation is big-endian
+    repr.as_mut().reverse();
     let fr = Fr::from_repr(repr).unwrap();
     Ok(fr)
 }
-- 
2.43.0


From 7c5ba7540c8089562fc388fc4930e04dc1cf42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:27 +0000
Subject: [PATCH 03/18] fix: do not reserve memory for counts a circuit or
 witness file merely announces

---
 packages/circuit_reader/src/circom_reader.rs | 22 ++++++++++----------
 packages/spartan_wasm/src/wasm.rs            |  4 ++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index b04f52e..45c6e07 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -82,14 +82,20 @@ pub(crate) fn read_field<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Fr> {
 
 fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let field_size = reader.read_u32::<LittleEndian>()?;
-    let mut prime_size = vec![0u8; field_size as usize];
-    reader.read_exact(&mut prime_size)?;
     if size != 32 + field_size as u64 {
         return Err(Error::new(
             ErrorKind::InvalidData,
             "Invalid header section size",
         ));
     }
+    if field_size != 32 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "This parser only supports 32-byte fields",
+        ));
+    }
+    let mut prime_size = vec![0u8; field_size as usize];
+    reader.read_exact(&mut prime_size)?;
 
     Ok(Header {
         field_size,
@@ -105,7 +111,7 @@ fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
 
 fn read_constraint_vec<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Vec<(usize, Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
-    let mut vec = Vec::with_capacity(n_vec);
+    let mut vec = Vec::new();
     for _ in 0..n_vec {
         vec.push((
             reader.read_u32::<LittleEndian>()? as usize,
@@ -120,7 +126,7 @@ fn read_constraints<R: Read, Fr: PrimeField>(
     header: &Header,
 ) -> Result<Vec<Constraint<Fr>>> {
     // todo check section size
-    let mut vec = Vec::with_capacity(header.n_constraints as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
             read_constraint_vec::<&mut R, Fr>(&mut reader)?,
@@ -138,7 +144,7 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
             "Invalid map section size",
         ));
     }
-    let mut vec = Vec::with_capacity(header.n_wires as usize);
+    let mut vec = Vec::new();
     for _ in 0..header.n_wires {
         vec.push(reader.read_u64::<LittleEndian>()?);
     }
@@ -186,12 +192,6 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
 
     reader.seek(SeekFrom::Start(*section_offsets.get(&header_type).unwrap()))?;
     let header = read_header(&mut reader, *section_sizes.get(&header_type).unwrap())?;
-    if header.field_size != 32 {
-        return Err(Error::new(
-            ErrorKind::InvalidData,
-            "This parser only supports 32-byte fields",
-        ));
-    }
     // if header.prime_size != hex!("010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430") {
     //     return Err(Error::new(ErrorKind::InvalidData, "This parser only supports bn256"));
     // }
diff --git a/packages/spartan_wasm/src/wasm.rs b/packages/spartan_wasm/src/wasm.rs
index 2cf3998..5d8f583 100644
--- a/packages/spartan_wasm/src/wasm.rs
+++ b/packages/spartan_wasm/src/wasm.rs
@@ -155,10 +155,10 @@ pub fn load_witness_from_bin_reader<Fr: PrimeField, R: Read>(
         panic!("invalid section type");
     }
     let sec_size = reader.read_u64::<LittleEndian>()?;
-    if sec_size != (witness_len * field_size) as u64 {
+    if sec_size != witness_len as u64 * field_size as u64 {
         panic!("invalid witness section size {}", sec_size);
     }
-    let mut result = Vec::with_capacity(witness_len as usize);
+    let mut result = Vec::new();
     for _ in 0..witness_len {
         result.push(read_field::<&mut R, Fr>(&mut reader)?);
     }
-- 
2.43.0


From 966f96a72ec7863796f516b3a05d7958b9dc6008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 04/18] fix: refuse circuit files whose counts, sizes or wire
 indices contradict each other

---
 packages/circuit_reader/src/circom_reader.rs | 55 +++++++++++++++-----
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/packages/circuit_reader/src/circom_reader.rs b/packages/circuit_reader/src/circom_reader.rs
index 45c6e07..f1a0e9e 100644
--- a/packages/circuit_reader/src/circom_reader.rs
+++ b/packages/circuit_reader/src/circom_reader.rs
@@ -97,7 +97,7 @@ fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
     let mut prime_size = vec![0u8; field_size as usize];
     reader.read_exact(&mut prime_size)?;
 
-    Ok(Header {
+    let header = Header {
         field_size,
         prime_size,
         n_wires: reader.read_u32::<LittleEndian>()?,
@@ -106,32 +106,54 @@ fn read_header<R: Read>(mut reader: R, size: u64) -> Result<Header> {
         n_prv_in: reader.read_u32::<LittleEndian>()?,
         n_labels: reader.read_u64::<LittleEndian>()?,
         n_constraints: reader.read_u32::<LittleEndian>()?,
-    })
+    };
+    // Wire 0 is the constant one, followed by the public wires
+    if 1 + header.n_pub_out as u64 + header.n_pub_in as u64 > header.n_wires as u64 {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "More public wires than wires",
+        ));
+    }
+    Ok(header)
 }
 
-fn read_constraint_vec<R: Read, Fr: PrimeField>(mut reader: R) -> Result<Vec<(usize, Fr)>> {
+fn read_constraint_vec<R: Read, Fr: PrimeField>(
+    mut reader: R,
+    n_wires: u32,
+) -> Result<Vec<(usize, Fr)>> {
     let n_vec = reader.read_u32::<LittleEndian>()? as usize;
     let mut vec = Vec::new();
     for _ in 0..n_vec {
-        vec.push((
-            reader.read_u32::<LittleEndian>()? as usize,
-            read_field::<&mut R, Fr>(&mut reader)?,
-        ));
+        let wire = reader.read_u32::<LittleEndian>()?;
+        if wire >= n_wires {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Constraint refers to a wire that does not exist",
+            ));
+        }
+        vec.push((wire as usize, read_field::<&mut R, Fr>(&mut reader)?));
     }
     Ok(vec)
 }
 
-fn read_constraints<R: Read, Fr: PrimeField>(
+fn read_constraints<R: Read + Seek, Fr: PrimeField>(
     mut reader: R,
+    size: u64,
     header: &Header,
 ) -> Result<Vec<Constraint<Fr>>> {
-    // todo check section size
+    let start = reader.seek(SeekFrom::Current(0))?;
     let mut vec = Vec::new();
     for _ in 0..header.n_constraints {
         vec.push((
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
-            read_constraint_vec::<&mut R, Fr>(&mut reader)?,
+            read_constraint_vec::<&mut R, Fr>(&mut reader, header.n_wires)?,
+            read_constraint_vec::<&mut R, Fr>(&mut reader, header.n_wires)?,
+            read_constraint_vec::<&mut R, Fr>(&mut reader, header.n_wires)?,
+        ));
+    }
+    if reader.seek(SeekFrom::Current(0))? - start != size {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            "Invalid constraint section size",
         ));
     }
     Ok(vec)
@@ -181,6 +203,9 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
         let section_type = reader.read_u32::<LittleEndian>()?;
         let section_size = reader.read_u64::<LittleEndian>()?;
         let offset = reader.seek(SeekFrom::Current(0))?;
+        if section_size > i64::MAX as u64 {
+            return Err(Error::new(ErrorKind::InvalidData, "Invalid section size"));
+        }
         section_offsets.insert(section_type, offset);
         section_sizes.insert(section_type, section_size);
         reader.seek(SeekFrom::Current(section_size as i64))?;
@@ -199,7 +224,11 @@ pub fn from_reader<G1: Group, R: Read + Seek>(mut reader: R) -> Result<R1CSFile<
     reader.seek(SeekFrom::Start(
         *section_offsets.get(&constraint_type).unwrap(),
     ))?;
-    let constraints = read_constraints::<&mut R, <G1 as Group>::Scalar>(&mut reader, &header)?;
+    let constraints = read_constraints::<&mut R, <G1 as Group>::Scalar>(
+        &mut reader,
+        *section_sizes.get(&constraint_type).unwrap(),
+        &header,
+    )?;
 
     reader.seek(SeekFrom::Start(
         *section_offsets.get(&wire2label_type).unwrap(),
-- 
2.43.0


From 765ef69000999dc561dd6d90971a91be33078551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 05/18] fix: refuse evaluation proofs whose L and R vectors
 differ in length

verification_scalars only checked L_vec. Surplus R elements were added to the
final check (paired with the scalar 1 that belongs to Gamma) without being
absorbed into the transcript, so a prover could choose one that makes any
evaluation proof, and with it any false statement, verify.
---
 packages/Spartan-secq/src/nizk/bullet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/Spartan-secq/src/nizk/bullet.rs b/packages/Spartan-secq/src/nizk/bullet.rs
index 2767a21..41d804c 100644
--- a/packages/Spartan-secq/src/nizk/bullet.rs
+++ b/packages/Spartan-secq/src/nizk/bullet.rs
@@ -166,6 +166,10 @@ impl BulletReductionProof {
     if n != (1 << lg_n) {
       return Err(ProofVerifyError::InternalError);
     }
+    // a surplus element would enter the final check without entering the transcript
+    if self.R_vec.len() != lg_n {
+      return Err(ProofVerifyError::InternalError);
+    }
 
     // 1. Recompute x_k,...,x_1 based on the proof transcript
     let mut challenges = Vec::with_capacity(lg_n);
-- 
2.43.0


From bc0f25179011718e54ddcdffe1341f451debfa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 06/18] fix: refuse sum-check proofs with surplus dot-product
 proofs

Anything appended after the last round's proof was never looked at, so a proof
could be altered in transit and still be accepted.
---
 packages/Spartan-secq/src/sumcheck.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/Spartan-secq/src/sumcheck.rs b/packages/Spartan-secq/src/sumcheck.rs
index 418e3a8..331e782 100644
--- a/packages/Spartan-secq/src/sumcheck.rs
+++ b/packages/Spartan-secq/src/sumcheck.rs
@@ -97,6 +97,7 @@ impl ZKSumcheckInstanceProof {
     // verify that there is a univariate polynomial for each round
     assert_eq!(self.comm_polys.len(), num_rounds);
     assert_eq!(self.comm_evals.len(), num_rounds);
+    assert_eq!(self.proofs.len(), num_rounds);
 
     let mut r: Vec<Scalar> = Vec::new();
     for i in 0..self.comm_polys.len() {
-- 
2.43.0


From 625d52f1fb57d8aeb5ace3a320cbc52bedfe7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:52 +0000
Subject: [PATCH 07/18] fix: refuse circuit files whose digest is not that of
 their matrices

A proof is bound to the digest stored in the circuit file, and nothing tied
that digest to the matrices in the same file: a file with another circuit's
digest made the verifier accept proofs made for the other circuit, and a torn
or damaged file loaded as a different circuit.
---
 packages/Spartan-secq/src/lib.rs          | 21 +++++++++++++++++++++
 packages/Spartan-secq/src/r1csinstance.rs | 19 ++++++++++++++++++-
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 293ff43..c5a711b 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -112,12 +112,33 @@ pub type InputsAssignment = Assignment;
 
 /// `Instance` holds the description of R1CS matrices and a hash of the matrices
 #[derive(Serialize, Deserialize)]
+#[serde(try_from = "UncheckedInstance")]
 pub struct Instance {
   /// R1CS instance
   pub inst: R1CSInstance,
   digest: Vec<u8>,
 }
 
+/// An encoded `Instance`, before its digest has been compared with its matrices
+#[derive(Deserialize)]
+struct UncheckedInstance {
+  inst: R1CSInstance,
+  digest: Vec<u8>,
+}
+
+impl TryFrom<UncheckedInstance> for Instance {
+  type Error = &'static str;
+
+  fn try_from(unchecked: UncheckedInstance) -> Result<Self, Self::Error> {
+    let UncheckedInstance { inst, digest } = unchecked;
+    // proofs are bound to the digest, so it must be the digest of these matrices
+    if !inst.has_digest(&digest) {
+      return Err("the digest does not belong to the R1CS instance");
+    }
+    Ok(Instance { inst, digest })
+  }
+}
+
 impl Instance {
   /// Constructs a new `Instance` and an associated satisfying assignment
   pub fn new(
diff --git a/packages/Spartan-secq/src/r1csinstance.rs b/packages/Spartan-secq/src/r1csinstance.rs
index cc83214..34227bd 100644
--- a/packages/Spartan-secq/src/r1csinstance.rs
+++ b/packages/Spartan-secq/src/r1csinstance.rs
@@ -10,10 +10,11 @@ use super::sparse_mlpoly::{
   SparseMatPolyCommitmentGens, SparseMatPolyEvalProof, SparseMatPolynomial,
 };
 use super::timer::Timer;
-use flate2::{write::ZlibEncoder, Compression};
+use flate2::{read::ZlibDecoder, write::ZlibEncoder, Compression};
 use merlin::Transcript;
 use rand_core::OsRng;
 use serde::{Deserialize, Serialize};
+use std::io::Read;
 
 #[derive(Debug, Serialize, Deserialize)]
 pub struct R1CSInstance {
@@ -152,6 +153,22 @@ impl R1CSInstance {
     encoder.finish().unwrap()
   }
 
+  /// Checks that `digest` is a digest of this instance. The digest is compared uncompressed because
+  /// the compressed form may differ between versions of the compressor.
+  pub fn has_digest(&self, digest: &[u8]) -> bool {
+    let encoded = match bincode::serialize(&self) {
+      Ok(encoded) => encoded,
+      Err(_) => return false,
+    };
+    // one byte more than expected is enough to see that there is too much
+    let mut digested = Vec::new();
+    ZlibDecoder::new(digest)
+      .take(encoded.len() as u64 + 1)
+      .read_to_end(&mut digested)
+      .is_ok()
+      && digested == encoded
+  }
+
   pub fn produce_synthetic_r1cs(
     num_cons: usize,
     num_vars: usize,
-- 
2.43.0


From 0d7634e8e915cc678afc1d766ef5bc59656dd656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 08/18] fix: check the length of a proof's evaluation point
 before evaluating there

NIZK::verify evaluated the matrices at the point the proof claims before looking
at how many coordinates it has. The evaluation table has 2^length entries, so a
proof of a few kilobytes could make the verifier ask for tens of gigabytes and
be killed.
---
 packages/Spartan-secq/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index c5a711b..35132e2 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -32,6 +32,7 @@ mod unipoly;
 
 use core::cmp::max;
 use errors::{ProofVerifyError, R1CSError};
+use math::Math;
 use merlin::Transcript;
 use r1csinstance::{
   R1CSCommitment, R1CSCommitmentGens, R1CSDecommitment, R1CSEvalProof, R1CSInstance,
@@ -584,6 +585,12 @@ impl NIZK {
     // to enable the verifier complete the first sum-check
     let timer_eval = Timer::new("eval_sparse_polys");
     let (claimed_rx, claimed_ry) = &self.r;
+    // evaluating takes memory exponential in the length of the point
+    if claimed_rx.len() != inst.inst.get_num_cons().log_2()
+      || claimed_ry.len() != (2 * inst.inst.get_num_vars()).log_2()
+    {
+      return Err(ProofVerifyError::InternalError);
+    }
     let inst_evals = inst.inst.evaluate(claimed_rx, claimed_ry);
     timer_eval.stop();
 
-- 
2.43.0


From 6a4df0d781ea0632d97632b2e537d76095ec3b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:16 +0000
Subject: [PATCH 09/18] fix: pad a circuit without constraints to two
 constraints

---
 packages/Spartan-secq/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index 35132e2..f835d6c 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -173,8 +173,8 @@ impl Instance {
         }
 
         // ensure that num_cons_padded is power of 2
-        if num_cons.next_power_of_two() != num_cons {
-          num_cons_padded = num_cons.next_power_of_two();
+        if num_cons_padded.next_power_of_two() != num_cons_padded {
+          num_cons_padded = num_cons_padded.next_power_of_two();
         }
         num_cons_padded
       };
-- 
2.43.0


From b2f3eb6f959a9218aa86a6e344267e579f224948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:21 +0000
Subject: [PATCH 10/18] fix: start every Poseidon hash at the first round
 constant

---
 packages/poseidon/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/poseidon/src/lib.rs b/packages/poseidon/src/lib.rs
index ab1d198..0eda02a 100644
--- a/packages/poseidon/src/lib.rs
+++ b/packages/poseidon/src/lib.rs
@@ -48,6 +48,8 @@ impl<F: PrimeField> Poseidon<F> {
         let input = [domain_tag, input[0], input[1]];
 
         self.state = input;
+        // The round constants are consumed from the start for every input
+        self.pos = 0;
 
         let full_rounds_half = self.constants.num_full_rounds / 2;
 
-- 
2.43.0


From e935a80cd3d1f53f32d063ce02461d2293222278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:55 +0000
Subject: [PATCH 11/18] fix: refuse encoded scalars that are not canonical, cut
 short or of another length

---
 packages/Spartan-secq/src/scalar/scalar.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/packages/Spartan-secq/src/scalar/scalar.rs b/packages/Spartan-secq/src/scalar/scalar.rs
index 95116fc..6c60216 100755
--- a/packages/Spartan-secq/src/scalar/scalar.rs
+++ b/packages/Spartan-secq/src/scalar/scalar.rs
@@ -11,7 +11,7 @@ use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 use hex_literal::hex;
 use num_bigint_dig::{BigUint, ModInverse};
 use rand_core::{CryptoRng, RngCore};
-use serde::de::Visitor;
+use serde::de::{Error, Visitor};
 use serde::{Deserialize, Serialize};
 use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
 use zeroize::Zeroize;
@@ -222,24 +222,26 @@ impl<'de> Visitor<'de> for U64ArrayVisitor {
   type Value = Scalar;
 
   fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-    formatter.write_str("a sequence of 4 u64 values")
+    formatter.write_str("the 32 little-endian bytes of a canonical scalar")
   }
 
   fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
   where
     A: serde::de::SeqAccess<'de>,
   {
-    let mut result = [0u64; 4];
+    let mut bytes = [0u8; 32];
 
-    for i in 0..4 {
-      let mut val: u64 = 0;
-      for j in 0..8 {
-        val += (seq.next_element::<u8>().unwrap().unwrap() as u64) * 256u64.pow(j)
-      }
-      result[i] = val;
+    for (i, byte) in bytes.iter_mut().enumerate() {
+      *byte = seq
+        .next_element::<u8>()?
+        .ok_or_else(|| A::Error::invalid_length(i, &self))?;
+    }
+    if seq.next_element::<u8>()?.is_some() {
+      return Err(A::Error::invalid_length(bytes.len() + 1, &self));
     }
 
-    Ok(Scalar::from_raw(result))
+    Option::<Scalar>::from(Scalar::from_bytes(&bytes))
+      .ok_or_else(|| A::Error::custom("scalar is not canonical"))
   }
 }
 
-- 
2.43.0


From 4aa1b9c9e1402813bc164a2610aad4ba2c995832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:31 +0000
Subject: [PATCH 12/18] fix: give committed matrices at least two entries

The product and dot-product circuits halve their inputs, so encoding a
circuit whose matrices have at most one entry each made the prover panic.
---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index b2cf6a1..dfe9327 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -297,6 +297,8 @@ impl SparseMatPolyCommitmentGens {
     num_nz_entries: usize,
     batch_size: usize,
   ) -> SparseMatPolyCommitmentGens {
+    // as in multi_sparse_to_dense_rep, no polynomial has less than two entries
+    let num_nz_entries = num_nz_entries.max(2);
     let num_vars_ops =
       num_nz_entries.next_power_of_two().log_2() + (batch_size * 5).next_power_of_two().log_2();
     let num_vars_mem = if num_vars_x > num_vars_y {
@@ -377,10 +379,12 @@ impl SparseMatPolynomial {
       assert_eq!(sparse_polys[i].num_vars_y, sparse_polys[0].num_vars_y);
     }
 
+    // the product and dot-product circuits need at least two entries
     let N = (0..sparse_polys.len())
       .map(|i| sparse_polys[i].get_num_nz_entries())
       .max()
       .unwrap()
+      .max(2)
       .next_power_of_two();
 
     let mut ops_row_vec: Vec<Vec<usize>> = Vec::new();
-- 
2.43.0


From 89ade39e98ae89acfdaf7c695c36531162e6e6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:25 +0000
Subject: [PATCH 13/18] fix: check the number of dot-product claims in a
 batched product proof

Claims beyond the expected number were neither hashed nor checked, so an
accepted SNARK proof could be altered and still be accepted.
---
 packages/Spartan-secq/src/product_tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/Spartan-secq/src/product_tree.rs b/packages/Spartan-secq/src/product_tree.rs
index 6e2f932..d1acd64 100644
--- a/packages/Spartan-secq/src/product_tree.rs
+++ b/packages/Spartan-secq/src/product_tree.rs
@@ -393,6 +393,9 @@ impl ProductCircuitEvalProofBatched {
     let mut rand: Vec<Scalar> = Vec::new();
     //let mut num_rounds = 0;
     assert_eq!(self.proof.len(), num_layers);
+    assert_eq!(self.claims_dotp.0.len(), claims_dotp_vec.len());
+    assert_eq!(self.claims_dotp.1.len(), claims_dotp_vec.len());
+    assert_eq!(self.claims_dotp.2.len(), claims_dotp_vec.len());
 
     let mut claims_to_verify = claims_prod_vec.to_owned();
     let mut claims_to_verify_dotp: Vec<Scalar> = Vec::new();
-- 
2.43.0


From e2f03838f99991d7e46d47a0ec76fe64512b5b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 14/18] fix: compare the lengths of the left and right
 dot-product claims

The left length was compared with itself, so surplus right claims were
ignored and an accepted SNARK proof could be altered.
---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index dfe9327..c83a9d9 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -1272,7 +1272,7 @@ impl ProductLayerProof {
 
     // verify the evaluation of the sparse polynomial
     let (eval_dotp_left, eval_dotp_right) = &self.eval_val;
-    assert_eq!(eval_dotp_left.len(), eval_dotp_left.len());
+    assert_eq!(eval_dotp_left.len(), eval_dotp_right.len());
     assert_eq!(eval_dotp_left.len(), num_instances);
     let mut claims_dotp_circuit: Vec<Scalar> = Vec::new();
     for i in 0..num_instances {
-- 
2.43.0


From 5199555fdfd65b0f5230a6609f6b4a87dd280338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:40 +0000
Subject: [PATCH 15/18] fix: check the number of evaluations in a hash layer
 proof

The evaluations were concatenated and padded with zeros, and the memory
checks ran over as many addresses as the proof happened to contain, so
moving elements between the lists or appending zeros went unnoticed.
---
 packages/Spartan-secq/src/sparse_mlpoly.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index c83a9d9..2e71af2 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -912,6 +912,14 @@ impl HashLayerProof {
 
     let (rand_mem, rand_ops) = rand;
 
+    // one evaluation per instance of everything
+    let num_instances = claims_dotp.len() / 3;
+    assert_eq!(self.eval_row.0.len(), num_instances);
+    assert_eq!(self.eval_row.1.len(), num_instances);
+    assert_eq!(self.eval_col.0.len(), num_instances);
+    assert_eq!(self.eval_col.1.len(), num_instances);
+    assert_eq!(self.eval_val.len(), num_instances);
+
     // verify derefs at rand_ops
     let (eval_row_ops_val, eval_col_ops_val) = &self.eval_derefs;
     assert_eq!(eval_row_ops_val.len(), eval_col_ops_val.len());
-- 
2.43.0


From c7b37012423c8f06eedf99c7b2d9ea8387c6ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:36 +0000
Subject: [PATCH 16/18] hooks: the simulated file system covers open modes,
 sizes, removal; the tool's exit code is visible

---
 .../src/bin/gen_spartan_inst.rs               |   4 +-
 packages/circuit_reader/src/sim_env.rs        | 134 ++++++++++++++++--
 2 files changed, 121 insertions(+), 17 deletions(-)

diff --git a/packages/circuit_reader/src/bin/gen_spartan_inst.rs b/packages/circuit_reader/src/bin/gen_spartan_inst.rs
index 3ea50e3..9937c96 100644
--- a/packages/circuit_reader/src/bin/gen_spartan_inst.rs
+++ b/packages/circuit_reader/src/bin/gen_spartan_inst.rs
@@ -10,8 +10,8 @@ use std::fs::File;
 use std::io::Write;
 
 #[cfg(verif_sim)]
-pub fn sim_main() {
-    main()
+pub fn sim_main() -> std::process::ExitCode {
+    std::process::Termination::report(main())
 }
 
 fn main() {
diff --git a/packages/circuit_reader/src/sim_env.rs b/packages/circuit_reader/src/sim_env.rs
index b543e55..0844f5f 100644
--- a/packages/circuit_reader/src/sim_env.rs
+++ b/packages/circuit_reader/src/sim_env.rs
@@ -11,15 +11,28 @@ pub trait SimFile {
     fn write(&mut self, buf: &[u8]) -> Result<usize>;
     fn seek(&mut self, pos: SeekFrom) -> Result<u64>;
     fn sync(&mut self) -> Result<()>;
+    fn len(&mut self) -> Result<u64>;
+    fn set_len(&mut self, len: u64) -> Result<()>;
+}
+
+/// How a file is opened.
+#[derive(Clone, Copy, Default, Debug)]
+pub struct Mode {
+    pub read: bool,
+    pub write: bool,
+    pub append: bool,
+    pub truncate: bool,
+    pub create: bool,
+    pub create_new: bool,
 }
 
 /// What the simulator provides.
 pub trait SimEnv {
     fn args(&self) -> Vec<String>;
     fn current_dir(&self) -> Result<PathBuf>;
-    fn open(&self, path: &Path) -> Result<Box<dyn SimFile>>;
-    fn create(&self, path: &Path) -> Result<Box<dyn SimFile>>;
+    fn open(&self, path: &Path, mode: Mode) -> Result<Box<dyn SimFile>>;
     fn rename(&self, from: &Path, to: &Path) -> Result<()>;
+    fn remove_file(&self, path: &Path) -> Result<()>;
 }
 
 thread_local! {
@@ -47,31 +60,96 @@ pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(from: P, to: Q) -> Result<()> {
     env()?.rename(from.as_ref(), to.as_ref())
 }
 
-pub struct File(Box<dyn SimFile>);
+pub fn remove_file<P: AsRef<Path>>(path: P) -> Result<()> {
+    env()?.remove_file(path.as_ref())
+}
+
+pub fn read<P: AsRef<Path>>(path: P) -> Result<Vec<u8>> {
+    let mut bytes = Vec::new();
+    File::open(path)?.read_to_end(&mut bytes)?;
+    Ok(bytes)
+}
+
+pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> Result<()> {
+    File::create(path)?.write_all(contents.as_ref())
+}
+
+pub struct File(RefCell<Box<dyn SimFile>>);
+
+pub struct Metadata(u64);
+
+impl Metadata {
+    #[allow(clippy::len_without_is_empty)]
+    pub fn len(&self) -> u64 {
+        self.0
+    }
+
+    pub fn is_file(&self) -> bool {
+        true
+    }
+}
 
 impl File {
     pub fn open<P: AsRef<Path>>(path: P) -> Result<File> {
-        Ok(File(env()?.open(path.as_ref())?))
+        OpenOptions::new().read(true).open(path)
     }
 
     pub fn create<P: AsRef<Path>>(path: P) -> Result<File> {
-        Ok(File(env()?.create(path.as_ref())?))
+        OpenOptions::new()
+            .write(true)
+            .create(true)
+            .truncate(true)
+            .open(path)
+    }
+
+    pub fn sync_all(&self) -> Result<()> {
+        self.0.borrow_mut().sync()
+    }
+
+    pub fn sync_data(&self) -> Result<()> {
+        self.0.borrow_mut().sync()
+    }
+
+    pub fn set_len(&self, len: u64) -> Result<()> {
+        self.0.borrow_mut().set_len(len)
     }
 
-    pub fn sync_all(&mut self) -> Result<()> {
-        self.0.sync()
+    pub fn metadata(&self) -> Result<Metadata> {
+        Ok(Metadata(self.0.borrow_mut().len()?))
+    }
+}
+
+impl Read for &File {
+    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
+        self.0.borrow_mut().read(buf)
+    }
+}
+
+impl Write for &File {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        self.0.borrow_mut().write(buf)
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        Ok(())
+    }
+}
+
+impl Seek for &File {
+    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
+        self.0.borrow_mut().seek(pos)
     }
 }
 
 impl Read for File {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
-        self.0.read(buf)
+        self.0.borrow_mut().read(buf)
     }
 }
 
 impl Write for File {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        self.0.write(buf)
+        self.0.borrow_mut().write(buf)
     }
 
     fn flush(&mut self) -> Result<()> {
@@ -81,23 +159,49 @@ impl Write for File {
 
 impl Seek for File {
     fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
-        self.0.seek(pos)
+        self.0.borrow_mut().seek(pos)
     }
 }
 
-pub struct OpenOptions;
+#[derive(Clone, Default)]
+pub struct OpenOptions(Mode);
 
 impl OpenOptions {
-    #[allow(clippy::new_without_default)]
     pub fn new() -> Self {
-        OpenOptions
+        OpenOptions::default()
+    }
+
+    pub fn read(&mut self, on: bool) -> &mut Self {
+        self.0.read = on;
+        self
+    }
+
+    pub fn write(&mut self, on: bool) -> &mut Self {
+        self.0.write = on;
+        self
+    }
+
+    pub fn append(&mut self, on: bool) -> &mut Self {
+        self.0.append = on;
+        self
+    }
+
+    pub fn truncate(&mut self, on: bool) -> &mut Self {
+        self.0.truncate = on;
+        self
+    }
+
+    pub fn create(&mut self, on: bool) -> &mut Self {
+        self.0.create = on;
+        self
     }
 
-    pub fn read(&mut self, _read: bool) -> &mut Self {
+    pub fn create_new(&mut self, on: bool) -> &mut Self {
+        self.0.create_new = on;
         self
     }
 
     pub fn open<P: AsRef<Path>>(&self, path: P) -> Result<File> {
-        File::open(path)
+        Ok(File(RefCell::new(env()?.open(path.as_ref(), self.0)?)))
     }
 }
-- 
2.43.0


From 5dd8960adbd1774db2d8fc0f3b8cd8869ea0243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 17/18] fix: check the dimensions stated in an encoded circuit

An encoded Instance may state dimensions that R1CSInstance::new refuses. Deriving
the public parameters takes time in proportion to the square root of the number
of variables or inputs, so a circuit of a few hundred bytes that states 2^40
inputs kept prove and verify busy for hours. The digest check does not help: the
digest of such a circuit can be computed.
---
 packages/Spartan-secq/src/lib.rs           |  4 ++++
 packages/Spartan-secq/src/r1csinstance.rs  | 16 ++++++++++++++++
 packages/Spartan-secq/src/sparse_mlpoly.rs | 17 +++++++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/packages/Spartan-secq/src/lib.rs b/packages/Spartan-secq/src/lib.rs
index f835d6c..2a1d88e 100644
--- a/packages/Spartan-secq/src/lib.rs
+++ b/packages/Spartan-secq/src/lib.rs
@@ -132,6 +132,10 @@ impl TryFrom<UncheckedInstance> for Instance {
 
   fn try_from(unchecked: UncheckedInstance) -> Result<Self, Self::Error> {
     let UncheckedInstance { inst, digest } = unchecked;
+    // the cost of deriving public parameters and of proving depends on these numbers
+    if !inst.has_valid_dimensions() {
+      return Err("the dimensions are not those of an R1CS instance");
+    }
     // proofs are bound to the digest, so it must be the digest of these matrices
     if !inst.has_digest(&digest) {
       return Err("the digest does not belong to the R1CS instance");
diff --git a/packages/Spartan-secq/src/r1csinstance.rs b/packages/Spartan-secq/src/r1csinstance.rs
index 34227bd..dea9a28 100644
--- a/packages/Spartan-secq/src/r1csinstance.rs
+++ b/packages/Spartan-secq/src/r1csinstance.rs
@@ -147,6 +147,22 @@ impl R1CSInstance {
     self.num_inputs
   }
 
+  /// Checks what `R1CSInstance::new` asserts, and that all entries lie inside the matrices.
+  pub fn has_valid_dimensions(&self) -> bool {
+    self.num_cons.is_power_of_two()
+      && self.num_vars.is_power_of_two()
+      && self.num_vars <= usize::MAX / 2
+      && self.num_inputs < self.num_vars
+      && [&self.A, &self.B, &self.C].iter().all(|M| {
+        M.has_dimensions(
+          self.num_cons,
+          self.num_vars + 1 + self.num_inputs,
+          self.num_cons.log_2(),
+          (2 * self.num_vars).log_2(),
+        )
+      })
+  }
+
   pub fn get_digest(&self) -> Vec<u8> {
     let mut encoder = ZlibEncoder::new(Vec::new(), Compression::default());
     bincode::serialize_into(&mut encoder, &self).unwrap();
diff --git a/packages/Spartan-secq/src/sparse_mlpoly.rs b/packages/Spartan-secq/src/sparse_mlpoly.rs
index 2e71af2..d34ee3b 100644
--- a/packages/Spartan-secq/src/sparse_mlpoly.rs
+++ b/packages/Spartan-secq/src/sparse_mlpoly.rs
@@ -352,6 +352,23 @@ impl SparseMatPolynomial {
     }
   }
 
+  /// Whether the polynomial has the given numbers of variables and its entries lie in the given
+  /// numbers of rows and columns.
+  pub fn has_dimensions(
+    &self,
+    num_rows: usize,
+    num_cols: usize,
+    num_vars_x: usize,
+    num_vars_y: usize,
+  ) -> bool {
+    self.num_vars_x == num_vars_x
+      && self.num_vars_y == num_vars_y
+      && self
+        .M
+        .iter()
+        .all(|entry| entry.row < num_rows && entry.col < num_cols)
+  }
+
   pub fn get_num_nz_entries(&self) -> usize {
     self.M.len().next_power_of_two()
   }
-- 
2.43.0


From c288ca8c0b3a0dd39d81ef1ad9293d509732c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:34 +0000
Subject: [PATCH 18/18] fix: refuse integers that do not fit instead of
 encoding other numbers

bigIntToBytes padded but never checked: an odd number of surplus digits shifted the
value (the last digit was dropped), an even number spilled into the neighbouring field,
so Poseidon.hash and the public input encoding stood for other numbers than given.
---
 packages/lib/src/helpers/utils.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/lib/src/helpers/utils.ts b/packages/lib/src/helpers/utils.ts
index 60f7c97..224085a 100644
--- a/packages/lib/src/helpers/utils.ts
+++ b/packages/lib/src/helpers/utils.ts
@@ -52,6 +52,9 @@ export const bytesLeToBigInt = (bytes: Uint8Array): bigint => {
 
 export const bigIntToBytes = (n: bigint, size: number): Uint8Array => {
   const hex = n.toString(16);
+  if (n < BigInt(0) || hex.length > size * 2) {
+    throw new RangeError(`value does not fit into ${size} bytes`);
+  }
   const hexPadded = hex.padStart(size * 2, "0");
   return Buffer.from(hexPadded, "hex");
 };
-- 
2.43.0

