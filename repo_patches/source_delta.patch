From 96be4599fabc609d94529c6e5af52c36b1a98902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 01/16] sim: guarded hook to thin Monte-Carlo updates under
 --cfg spinchain_sim

---
 src/lib.rs                |  4 ++++
 src/sim.rs                | 40 +++++++++++++++++++++++++++++++++++++++
 src/spinchain.rs          | 20 ++++++++++++++++++++
 src/spinchain_langevin.rs |  8 ++++++++
 4 files changed, 72 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index b18b4dd..f1d939b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,8 @@
+#![allow(unexpected_cfgs)]
+
 pub mod config;
+#[cfg(spinchain_sim)]
+pub mod sim;
 pub mod spin;
 pub mod spinchain;
 pub mod spinchain_langevin;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..04ee895
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,40 @@
+//! Simulation hook, compiled only with `--cfg spinchain_sim`.
+//!
+//! The command line modes equilibrate with literal counts of Monte-Carlo updates (up to 2e7 per
+//! run), which would dominate every simulated run.  With `DST_THIN=K` in the environment only every
+//! K-th Metropolis update of each thread is carried out; unset or 1 changes nothing.
+
+use std::cell::Cell;
+use std::sync::OnceLock;
+
+static EVERY: OnceLock<u64> = OnceLock::new();
+
+thread_local! {
+    static LEFT: Cell<u64> = const { Cell::new(0) };
+}
+
+#[cold]
+#[inline(never)]
+fn refill() -> u64 {
+    *EVERY.get_or_init(|| {
+        std::env::var("DST_THIN")
+            .ok()
+            .and_then(|v| v.parse::<u64>().ok())
+            .unwrap_or(1)
+    })
+}
+
+/// Should this Metropolis update be skipped?
+#[inline(always)]
+pub fn thinned() -> bool {
+    LEFT.with(|c| {
+        let n = c.get();
+        if n > 1 {
+            c.set(n - 1);
+            true
+        } else {
+            c.set(refill());
+            false
+        }
+    })
+}
diff --git a/src/spinchain.rs b/src/spinchain.rs
index 39a3f59..44b9b1e 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -217,6 +217,10 @@ impl SpinChain {
         }
     }
     pub fn metropolis_update_maglab(&mut self) {
+        #[cfg(spinchain_sim)]
+        if crate::sim::thinned() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -285,6 +289,10 @@ impl SpinChain {
     /// Does a Metropolis update for a single spin with inverse temperature beta
     /// This is in the rotating frame with leading Magnus correction
     pub fn metropolis_update_rot_magnus(&mut self) {
+        #[cfg(spinchain_sim)]
+        if crate::sim::thinned() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -436,6 +444,10 @@ impl SpinChain {
 
     /// Does a Metropolis update for a single spin with inverse temperature beta
     pub fn metropolis_update(&mut self) {
+        #[cfg(spinchain_sim)]
+        if crate::sim::thinned() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -504,6 +516,10 @@ impl SpinChain {
     //-1/(2 omega) * \sum_{j=1}^\ell S^z_j 2 * y .
 
     pub fn metropolis_update_mag_full(&mut self) {
+        #[cfg(spinchain_sim)]
+        if crate::sim::thinned() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -937,6 +953,10 @@ impl SpinChain {
     }
 
     pub fn metropolis_update_magnus(&mut self) {
+        #[cfg(spinchain_sim)]
+        if crate::sim::thinned() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 365acf0..e6dff21 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -206,6 +206,10 @@ impl SpinChainLangevin {
 
     /// Does a Metropolis update for a single spin with inverse temperature beta
     pub fn metropolis_update(&mut self) {
+        #[cfg(spinchain_sim)]
+        if crate::sim::thinned() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
@@ -272,6 +276,10 @@ impl SpinChainLangevin {
     //-1/(2 omega) * \sum_{j=1}^\ell S^z_j 2 * y .
 
     pub fn metropolis_update_magnus(&mut self) {
+        #[cfg(spinchain_sim)]
+        if crate::sim::thinned() {
+            return;
+        }
         let mut rng = rand::thread_rng();
         let unif = Uniform::from(0.0..1.0);
 
-- 
2.43.0


From e497efc3c7aeba71be012ca2624b88f6449f120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 02/16] fix: wait for the background writer before a sampling
 mode ends

---
 src/obs.rs     | 24 ++++++++++++++++++++----
 src/writers.rs |  7 +++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f5c3cdc..607f932 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -611,7 +611,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         .unwrap();
 
     let (tx, rx) = mpsc::channel();
-    write_in_bg(dyn_hist, rx);
+    let writing_thread = write_in_bg(dyn_hist, rx);
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
         .template(
@@ -668,6 +668,10 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+
+    //Close channel so that the writer finishes, and wait for the last row
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
@@ -813,7 +817,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         .open(evt_string)
         .unwrap();
 
-    write_in_bg(evt_file, rx);
+    let writing_thread = write_in_bg(evt_file, rx);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -873,6 +877,10 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+
+    //Close channel so that the writer finishes, and wait for the last row
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
@@ -1524,7 +1532,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1598,6 +1606,10 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+
+    //Close channel so that the writer finishes, and wait for the last row
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_mc_profile(conf: &mut Config) {
@@ -1715,7 +1727,7 @@ pub fn run_mc(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1789,4 +1801,8 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+
+    //Close channel so that the writer finishes, and wait for the last row
+    drop(tx);
+    writing_thread.join().unwrap();
 }
diff --git a/src/writers.rs b/src/writers.rs
index 23386a0..688cb4c 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,11 +1,14 @@
 use super::*;
 
-pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) {
+pub fn write_in_bg(
+    file: File,
+    rx: std::sync::mpsc::Receiver<String>,
+) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
         }
-    });
+    })
 }
 
 pub fn profile_in_bg(
-- 
2.43.0


From e4efbd442056743bb2cc38c4dfceb43ae9aab163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:17 +0000
Subject: [PATCH 03/16] fix: do not wait forever for profile samples of a
 failed run

---
 src/obs.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/obs.rs b/src/obs.rs
index 607f932..3131741 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1251,6 +1251,16 @@ pub fn run_dyn_profile(conf: &mut Config) {
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+
+    //Close channels, so that a missing sample is an error and not waited for
+    drop(tx_500);
+    drop(tx_1000);
+    drop(tx_1500);
+    drop(tx_2000);
+    drop(tx_2500);
+    drop(tx_3000);
+    drop(tx_3500);
+    drop(tx_4000);
     writing_thread_500.join().unwrap();
     writing_thread_1000.join().unwrap();
     writing_thread_1500.join().unwrap();
@@ -1709,6 +1719,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     }
     m.join().unwrap();
     println!("Joined m threads");
+    drop(tx);
     writing_thread.join().unwrap();
 }
 
-- 
2.43.0


From 08ecfdd0c66d70c59eec800b3e8a659bfd40b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 04/16] fix: report failed runs instead of ending with success

---
 src/obs.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/obs.rs b/src/obs.rs
index 3131741..aaccb71 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1,5 +1,14 @@
 use super::*;
 
+/// Wait for all runs in the pool to end, and fail if any of them did
+fn finish_runs(pool: &ThreadPool) {
+    pool.join();
+    match pool.panic_count() {
+        0 => {}
+        failed => panic!("{} run(s) failed", failed),
+    }
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
     let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
 
@@ -524,6 +533,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
     let mut running_num: f64 = 0.0;
 
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Close channel so we can average
     drop(tx);
@@ -668,6 +678,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Close channel so that the writer finishes, and wait for the last row
     drop(tx);
@@ -877,6 +888,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Close channel so that the writer finishes, and wait for the last row
     drop(tx);
@@ -940,6 +952,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Update config
     conf.offset += num as u32;
@@ -1011,6 +1024,7 @@ pub fn run_sim_response(conf: &mut Config) {
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Update config
     conf.offset += num as u32;
@@ -1076,6 +1090,7 @@ pub fn run_sim(conf: &mut Config) {
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Update config
     conf.offset += num as u32;
@@ -1251,6 +1266,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Close channels, so that a missing sample is an error and not waited for
     drop(tx_500);
@@ -1334,6 +1350,7 @@ pub fn run_ext(conf: &mut Config) {
 
     //    m.join_and_clear().unwrap();
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Update config
     conf.offset += num as u32;
@@ -1616,6 +1633,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Close channel so that the writer finishes, and wait for the last row
     drop(tx);
@@ -1718,6 +1736,7 @@ pub fn run_mc_profile(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    finish_runs(&pool);
     println!("Joined m threads");
     drop(tx);
     writing_thread.join().unwrap();
@@ -1812,6 +1831,7 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    finish_runs(&pool);
 
     //Close channel so that the writer finishes, and wait for the last row
     drop(tx);
-- 
2.43.0


From 629c24771935778a4750e640cdd6b374f9e952bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 05/16] fix: replace config.toml as a whole, never leave it
 truncated

---
 src/config.rs             | 14 ++++++++++++++
 src/main.rs               |  1 -
 src/obs.rs                | 10 +++++-----
 src/spinchain.rs          |  2 +-
 src/spinchain_langevin.rs |  2 +-
 5 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 53d5ec8..1756b4a 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -1,4 +1,6 @@
 use serde::{Deserialize, Serialize};
+use std::fs::{self, File};
+use std::io::{self, Write};
 
 #[derive(Deserialize, Serialize, Debug, Clone)]
 #[allow(non_camel_case_types)]
@@ -94,4 +96,16 @@ impl Default for Config {
     }
 }
 
+impl Config {
+    /// Store the configuration in a file. The new content replaces the old one as a whole, so that
+    /// an interruption or a failing write leaves the file as it was.
+    pub fn store(&self, filename: &str) -> io::Result<()> {
+        let new_file = format!("{}.new", filename);
+        let mut file = File::create(&new_file)?;
+        file.write_all(toml::to_string(self).unwrap().as_bytes())?;
+        file.sync_all()?;
+        fs::rename(&new_file, filename)
+    }
+}
+
 pub static CS: &str = include_str!("config-desc.toml");
diff --git a/src/main.rs b/src/main.rs
index 66cfb01..57291f4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,4 @@
 use indicatif::{MultiProgress, ProgressBar, ProgressStyle};
-use std::fs;
 use std::fs::{File, OpenOptions};
 use std::io::{prelude::*, BufReader};
 use std::sync::mpsc;
diff --git a/src/obs.rs b/src/obs.rs
index aaccb71..a24ae39 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -956,7 +956,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.store("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
@@ -1028,7 +1028,7 @@ pub fn run_sim_response(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.store("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
@@ -1094,7 +1094,7 @@ pub fn run_sim(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.store("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
@@ -1288,7 +1288,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.store("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
@@ -1354,7 +1354,7 @@ pub fn run_ext(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.store("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
diff --git a/src/spinchain.rs b/src/spinchain.rs
index 44b9b1e..fc25fc8 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -98,7 +98,7 @@ impl SpinChain {
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
                 );
-                fs::write("config.toml", toml::to_string(&Config::default()).unwrap()).unwrap();
+                Config::default().store("config.toml").unwrap();
                 Config::default()
             }
         }
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index e6dff21..4e728a3 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -89,7 +89,7 @@ impl SpinChainLangevin {
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
                 );
-                fs::write("config.toml", toml::to_string(&Config::default()).unwrap()).unwrap();
+                Config::default().store("config.toml").unwrap();
                 Config::default()
             }
         }
-- 
2.43.0


From 75ff3780f7dfd00b0c5ebaffe11d140f98fb3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 06/16] fix: do not replace a configuration that cannot be read

---
 src/spinchain.rs          | 8 ++++++--
 src/spinchain_langevin.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index fc25fc8..c44fd47 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -12,7 +12,7 @@ use rustfft::{num_complex::Complex, FftPlanner};
 use std::f64::consts::PI;
 use std::fs;
 use std::fs::File;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 
 #[allow(unused_macros)]
 macro_rules! triplet {
@@ -77,7 +77,7 @@ pub struct SpinChain {
 
 impl SpinChain {
     /// Reads a configuration from a file.
-    /// If the file cannot be opened, write a config.toml with default values and use default
+    /// If the file does not exist, write a config.toml with default values and use default
     /// values
     pub fn read_config(filename: &str) -> Config {
         //Read files
@@ -93,6 +93,10 @@ impl SpinChain {
                     //Config::default()
                 }
             },
+            //A configuration which is there, but cannot be read, must not be replaced
+            Err(e) if e.kind() != ErrorKind::NotFound => {
+                panic!("Cannot read {}: {:?}", filename, e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 4e728a3..d505a88 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -17,7 +17,7 @@ use rand_distr::{Distribution, Normal, Uniform};
 use std::f64::consts::PI;
 use std::fs;
 use std::fs::File;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 
 macro_rules! sq {
     ($( $x:expr),*) => {
@@ -68,7 +68,7 @@ pub struct SpinChainLangevin {
 
 impl SpinChainLangevin {
     /// Reads a configuration from a file.
-    /// If the file cannot be opened, write a config.toml with default values and use default
+    /// If the file does not exist, write a config.toml with default values and use default
     /// values
     pub fn read_config(filename: &str) -> Config {
         //Read files
@@ -84,6 +84,10 @@ impl SpinChainLangevin {
                     //Config::default()
                 }
             },
+            //A configuration which is there, but cannot be read, must not be replaced
+            Err(e) if e.kind() != ErrorKind::NotFound => {
+                panic!("Cannot read {}: {:?}", filename, e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
-- 
2.43.0


From fd743451dd3815e9d38782a1147b7b54f9ac5958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 07/16] fix: store only the advanced offset, not the overrides
 of one invocation

---
 src/obs.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index a24ae39..e005a68 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -9,6 +9,17 @@ fn finish_runs(pool: &ThreadPool) {
     }
 }
 
+/// Advance the offset by a finished batch. In config.toml all other settings stay what the user made
+/// them, whatever this invocation overrode; only beta follows the stored energy density.
+fn advance_offset(conf: &mut Config, num: usize) {
+    conf.offset += num as u32;
+
+    let mut stored: Config = SpinChain::read_config("config.toml");
+    stored.offset = conf.offset;
+    stored.beta = SpinChain::solve_beta(stored.ednsty);
+    stored.store("config.toml").unwrap();
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
     let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
 
@@ -955,8 +966,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
     finish_runs(&pool);
 
     //Update config
-    conf.offset += num as u32;
-    conf.store("config.toml").unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1027,8 +1037,7 @@ pub fn run_sim_response(conf: &mut Config) {
     finish_runs(&pool);
 
     //Update config
-    conf.offset += num as u32;
-    conf.store("config.toml").unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1093,8 +1102,7 @@ pub fn run_sim(conf: &mut Config) {
     finish_runs(&pool);
 
     //Update config
-    conf.offset += num as u32;
-    conf.store("config.toml").unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1287,8 +1295,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
     writing_thread_4000.join().unwrap();
 
     //Update config
-    conf.offset += num as u32;
-    conf.store("config.toml").unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
@@ -1353,8 +1360,7 @@ pub fn run_ext(conf: &mut Config) {
     finish_runs(&pool);
 
     //Update config
-    conf.offset += num as u32;
-    conf.store("config.toml").unwrap();
+    advance_offset(conf, num);
     println!("Finished {} runs", num);
 }
 
-- 
2.43.0


From ab2850b89c2f855182b8795bb329fd0f5390897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 08/16] fix: later batches of an invocation continue the
 numbering after --ext

---
 src/main.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 57291f4..bfce667 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -155,7 +155,6 @@ fn main() {
     }
     if args.ext {
         println!("Generating ext");
-        let mut conf = conf.clone();
         run_ext(&mut conf);
         default = false;
     }
-- 
2.43.0


From bc0775eaf4e7697384bfa5bde493c4f616da40c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 09/16] fix: modes without trajectory logs leave existing logs
 alone

---
 src/obs.rs | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index e005a68..54e083c 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -20,8 +20,17 @@ fn advance_offset(conf: &mut Config, num: usize) {
     stored.store("config.toml").unwrap();
 }
 
+/// A chain for the modes which sample, fit or average, and have no log of their own
+fn sampling_chain(conf: &Config) -> SpinChain {
+    let conf = Config {
+        log: false,
+        ..conf.clone()
+    };
+    SpinChain::new(conf, 0)
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -40,7 +49,7 @@ pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -59,7 +68,7 @@ pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -77,7 +86,7 @@ pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
     e_samples.iter().fold(0.0, |acc, x| acc + x) / (samples as f64)
 }
 pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -98,7 +107,7 @@ pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
 }
 pub fn estim_eh(conf: &mut Config, beta: f64) -> f64 {
     // let omega: f64 = 2.0 * PI / conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -301,7 +310,7 @@ pub fn get_obs_maglab(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -335,7 +344,7 @@ pub fn get_obs_rot(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -368,7 +377,7 @@ pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -399,7 +408,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -432,7 +441,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
 pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
     let s: f64 = sc.vars.ssize as f64;
 
     let mc_hist = OpenOptions::new()
@@ -515,7 +524,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let steps_in_cycle: usize = (conf.tau / conf.dt) as usize;
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = sampling_chain(conf);
 
         pool.execute(move || {
             pb.set_message(format!("run {}", i));
@@ -572,7 +581,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //Then sample every 10 cycles?
     let offset: f64 = 30.0;
     let final_t: f64 = (sample_num as f64 + offset) * conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     let pb = ProgressBar::new(final_t as u64);
     let sty = ProgressStyle::default_bar()
@@ -662,7 +671,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         let pb = m.add(ProgressBar::new(conf.t as u64));
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = sampling_chain(conf);
         //        sc.file = f.try_clone().unwrap();
 
         pool.execute(move || {
@@ -702,7 +711,7 @@ pub fn gen_hist(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf);
 
     let mc_hist = OpenOptions::new()
         .create(true)
@@ -1593,7 +1602,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1687,7 +1696,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1791,7 +1800,7 @@ pub fn run_mc(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
-- 
2.43.0


From f48724422b3246c88fcd4336bc7e01b4268bd426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 10/16] fix: leave rows cut off by a crash out of the averages

---
 src/obs.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 54e083c..2d930f6 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1373,6 +1373,19 @@ pub fn run_ext(conf: &mut Config) {
     println!("Finished {} runs", num);
 }
 
+/// The lines of a log file, without a last line that was cut off by an interrupted run
+fn complete_lines(file: File) -> impl Iterator<Item = std::io::Result<String>> {
+    let mut reader = BufReader::new(file);
+    std::iter::from_fn(move || {
+        let mut line = String::new();
+        match reader.read_line(&mut line) {
+            Ok(_) if line.ends_with('\n') => Some(Ok(line.trim_end().to_string())),
+            Ok(_) => None,
+            Err(e) => Some(Err(e)),
+        }
+    })
+}
+
 pub fn two_point_average(conf: &mut Config) {
     println!("Calculating two-point-average");
 
@@ -1411,8 +1424,8 @@ pub fn two_point_average(conf: &mut Config) {
                     //                println!("file: {:?}", path.display());
 
                     // First get the data at line 0
-                    let reader = BufReader::new(file);
-                    for line in reader.lines().skip(1) {
+                    let reader = complete_lines(file);
+                    for line in reader.skip(1) {
                         let line = line.unwrap();
                         let line_data: Vec<f64> = line
                             .split(' ')
@@ -1426,11 +1439,11 @@ pub fn two_point_average(conf: &mut Config) {
 
                 let file = File::open(&path).expect("Unable to open file");
 
-                let reader = BufReader::new(file);
+                let reader = complete_lines(file);
 
                 //Run through line-by-line
                 //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
+                for (i, line) in reader.skip(1).enumerate() {
                     let line = line.unwrap();
 
                     // Read line into appropriate vector
@@ -1507,11 +1520,11 @@ pub fn average(conf: &mut Config) {
                 let file = File::open(&path).expect("Unable to open file");
                 //                println!("file: {:?}", path.display());
                 pb.inc(1);
-                let reader = BufReader::new(file);
+                let reader = complete_lines(file);
 
                 //Run through line-by-line
                 //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
+                for (i, line) in reader.skip(1).enumerate() {
                     let line = line.unwrap();
 
                     //                    println!("Line {}: {}", i, &line);
-- 
2.43.0


From 5ae3a22d6fea99cd0388d638a6ea62445942d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 11/16] fix: new rows do not join a row cut off by a crash

---
 src/main.rs    | 52 +++++++++-----------------------------
 src/obs.rs     | 68 +++++++++++++++++++++-----------------------------
 src/writers.rs |  5 +---
 3 files changed, 41 insertions(+), 84 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index bfce667..723c86c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,6 +1,6 @@
 use indicatif::{MultiProgress, ProgressBar, ProgressStyle};
 use std::fs::{File, OpenOptions};
-use std::io::{prelude::*, BufReader};
+use std::io::{prelude::*, BufReader, SeekFrom};
 use std::sync::mpsc;
 use std::thread;
 use threadpool::ThreadPool;
@@ -20,10 +20,10 @@ use writers::{profile_in_bg, write_in_bg};
 
 mod obs;
 use obs::{
-    average, find_beta, find_beta2, find_beta_maglab, find_beta_rot, find_betah, gen_hist,
-    gen_hist_dynamics, gen_hist_magnus, gen_single_traj, get_obs, get_obs_maglab, get_obs_rot,
-    get_obsh, run_dyn_profile, run_ext, run_langevin, run_mc, run_mc_magnus, run_mc_profile,
-    run_sim, run_sim_response, run_tau, trajectory_mean_e, two_point_average,
+    append_to, average, find_beta, find_beta2, find_beta_maglab, find_beta_rot, find_betah,
+    gen_hist, gen_hist_dynamics, gen_hist_magnus, gen_single_traj, get_obs, get_obs_maglab,
+    get_obs_rot, get_obsh, run_dyn_profile, run_ext, run_langevin, run_mc, run_mc_magnus,
+    run_mc_profile, run_sim, run_sim_response, run_tau, trajectory_mean_e, two_point_average,
 };
 //use obs::{estim_e, estim_e2, estim_e_maglab, estim_e_rot, estim_eh}
 
@@ -184,11 +184,7 @@ fn main() {
 
         println!("Optimal beta: {}", result);
 
-        let beta_file = OpenOptions::new()
-            .create(true)
-            .append(true)
-            .open("beta.dat")
-            .unwrap();
+        let beta_file = append_to("beta.dat");
         writeln!(&beta_file, "{} {} {}", conf.tau, conf.beta, result).unwrap();
 
         default = false;
@@ -203,11 +199,7 @@ fn main() {
         let result: f64 = find_beta_rot(&mut conf);
         conf.beta = result;
 
-        let betat_file = OpenOptions::new()
-            .create(true)
-            .append(true)
-            .open("betat-rot.dat")
-            .unwrap();
+        let betat_file = append_to("betat-rot.dat");
 
         let results: [f64; 4] = get_obs_rot(&mut conf);
 
@@ -230,11 +222,7 @@ fn main() {
         let result: f64 = find_beta_maglab(&mut conf);
         conf.beta = result;
 
-        let betat_file = OpenOptions::new()
-            .create(true)
-            .append(true)
-            .open("betat-maglab.dat")
-            .unwrap();
+        let betat_file = append_to("betat-maglab.dat");
 
         let results: [f64; 4] = get_obs_maglab(&mut conf);
 
@@ -261,11 +249,7 @@ fn main() {
 
         let results: [f64; 4] = get_obs(&mut conf);
 
-        let betat_file = OpenOptions::new()
-            .create(true)
-            .append(true)
-            .open("betat.dat")
-            .unwrap();
+        let betat_file = append_to("betat.dat");
         writeln!(
             &betat_file,
             "{} {} {} {} {} {} {}",
@@ -290,11 +274,7 @@ fn main() {
 
         let results: [f64; 4] = get_obsh(&mut conf);
 
-        let betat_file = OpenOptions::new()
-            .create(true)
-            .append(true)
-            .open("betat.dat")
-            .unwrap();
+        let betat_file = append_to("betat.dat");
         writeln!(
             &betat_file,
             "{} {} {} {} {} {} {}",
@@ -312,11 +292,7 @@ fn main() {
 
         let results: [f64; 4] = get_obsh(&mut conf);
 
-        let betat_file = OpenOptions::new()
-            .create(true)
-            .append(true)
-            .open("betat.dat")
-            .unwrap();
+        let betat_file = append_to("betat.dat");
         writeln!(
             &betat_file,
             "{} {} {} {} {} {} {}",
@@ -361,11 +337,7 @@ fn main() {
         // Get e, mx, my, mz for this beta
         let results: [f64; 4] = get_obs(&mut conf);
 
-        let beta_file = OpenOptions::new()
-            .create(true)
-            .append(true)
-            .open("beta.dat")
-            .unwrap();
+        let beta_file = append_to("beta.dat");
         writeln!(
             &beta_file,
             "{} {} {} {} {} {} {} {}",
diff --git a/src/obs.rs b/src/obs.rs
index 2d930f6..f6f53ca 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -29,6 +29,26 @@ fn sampling_chain(conf: &Config) -> SpinChain {
     SpinChain::new(conf, 0)
 }
 
+/// Open a data file to add rows to it. If an interrupted run left its last row incomplete, that row is
+/// ended first, so that the new rows stay apart from it.
+pub fn append_to(name: &str) -> File {
+    let mut file = OpenOptions::new()
+        .read(true)
+        .create(true)
+        .append(true)
+        .open(name)
+        .unwrap();
+    if file.metadata().unwrap().len() > 0 {
+        let mut last = [0_u8];
+        file.seek(SeekFrom::End(-1)).unwrap();
+        file.read_exact(&mut last).unwrap();
+        if last != *b"\n" {
+            writeln!(&file).unwrap();
+        }
+    }
+    file
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
     let mut sc: SpinChain = sampling_chain(conf);
 
@@ -444,11 +464,7 @@ pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
     let mut sc: SpinChain = sampling_chain(conf);
     let s: f64 = sc.vars.ssize as f64;
 
-    let mc_hist = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("hist_mc_magnus.dat")
-        .unwrap();
+    let mc_hist = append_to("hist_mc_magnus.dat");
 
     println!("Generating Monte-Carlo histogram");
 
@@ -571,11 +587,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
 pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     let hist_name: String = format!("hist-st-t-{}.dat", conf.t);
 
-    let dyn_hist = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open(&hist_name)
-        .unwrap();
+    let dyn_hist = append_to(&hist_name);
 
     //To do samples, run for 30 cycles to equilibrate
     //Then sample every 10 cycles?
@@ -634,11 +646,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
 ///Runs single-shot trajectories and logs observables at the end of the trajectory
 pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
     let hist_name: String = format!("dyn-hist-t-{}.dat", conf.t);
-    let dyn_hist = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open(&hist_name)
-        .unwrap();
+    let dyn_hist = append_to(&hist_name);
 
     let (tx, rx) = mpsc::channel();
     let writing_thread = write_in_bg(dyn_hist, rx);
@@ -713,17 +721,9 @@ pub fn gen_hist(conf: &mut Config, sample_num: usize) {
 
     let mut sc: SpinChain = sampling_chain(conf);
 
-    let mc_hist = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("hist_mc.dat")
-        .unwrap();
+    let mc_hist = append_to("hist_mc.dat");
 
-    let dyn_hist = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("hist_dyn.dat")
-        .unwrap();
+    let dyn_hist = append_to("hist_dyn.dat");
     //    let mc_hist = File::create("hist_mc.dat").expect("Could not open file hist_mc.dat");
     //    let dyn_hist = File::create("hist_dyn.dat").expect("Could not open file hist_mc.dat");
 
@@ -842,11 +842,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     //Write logs
     let evt_string: &str = &["evt".to_string(), (steps).to_string(), ".dat".to_string()].join("");
 
-    let evt_file = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open(evt_string)
-        .unwrap();
+    let evt_file = append_to(evt_string);
 
     let writing_thread = write_in_bg(evt_file, rx);
 
@@ -1573,11 +1569,7 @@ pub fn average(conf: &mut Config) {
 }
 
 pub fn run_mc_magnus(conf: &mut Config) {
-    let file = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("mc_live.dat")
-        .unwrap();
+    let file = append_to("mc_live.dat");
 
     let m = MultiProgress::new();
 
@@ -1771,11 +1763,7 @@ pub fn run_mc_profile(conf: &mut Config) {
 }
 
 pub fn run_mc(conf: &mut Config) {
-    let file = OpenOptions::new()
-        .create(true)
-        .append(true)
-        .open("mc_live.dat")
-        .unwrap();
+    let file = append_to("mc_live.dat");
 
     let m = MultiProgress::new();
 
diff --git a/src/writers.rs b/src/writers.rs
index 688cb4c..c5e551d 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,9 +1,6 @@
 use super::*;
 
-pub fn write_in_bg(
-    file: File,
-    rx: std::sync::mpsc::Receiver<String>,
-) -> thread::JoinHandle<()> {
+pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
-- 
2.43.0


From 896f379fda65d78e95afac96d9ba576b9a11e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 12/16] fix: take stroboscopic samples at whole drive periods
 for every time step

---
 src/obs.rs | 122 +++++++++++++++++++----------------------------------
 1 file changed, 43 insertions(+), 79 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f6f53ca..44e20ba 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -608,38 +608,25 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //    sc.metropolis_update();
     //}
 
-    let init_steps = (offset * conf.tau / conf.dt) as usize;
-    let steps = (final_t / conf.dt) as usize;
-    println!(
-        "Generating dynamics histogram for {} steps i.e. t={}",
-        steps,
-        (steps as f64) * conf.dt
-    );
-    let mut step_count: u64 = 0;
-    let cycle_steps: u64 = (conf.tau / conf.dt) as u64;
+    println!("Generating dynamics histogram for t={}", final_t);
 
     println!("Sample num: {}", sample_num);
-    for _ in 0..init_steps {
-        sc.update();
-        pb.set_position(sc.t as u64);
-        step_count += 1;
-    }
-    while sc.t < final_t {
-        sc.update();
-        step_count += 1;
+    for i in 1..=sample_num {
+        //Go to the next whole cycle, to the nearest time step
+        while sc.t + 0.5 * sc.vars.dt < (offset + i as f64) * conf.tau {
+            sc.update();
+            pb.set_position(sc.t as u64);
+        }
 
-        pb.set_position(sc.t as u64);
-        if step_count % cycle_steps == 0 {
-            //Get a sample
-            let mx: f64 = sc.m()[0] / sc.vars.ssize as f64;
-            let my: f64 = sc.m()[1] / sc.vars.ssize as f64;
-            let mz: f64 = sc.m()[2] / sc.vars.ssize as f64;
-            let ed: f64 = sc.system_energy();
+        //Get a sample
+        let mx: f64 = sc.m()[0] / sc.vars.ssize as f64;
+        let my: f64 = sc.m()[1] / sc.vars.ssize as f64;
+        let mz: f64 = sc.m()[2] / sc.vars.ssize as f64;
+        let ed: f64 = sc.system_energy();
 
-            let formatted_string: String = format!("{} {} {} {} {}", sc.t, mx, my, mz, ed);
+        let formatted_string: String = format!("{} {} {} {} {}", sc.t, mx, my, mz, ed);
 
-            writeln!(&dyn_hist, "{}", formatted_string).unwrap();
-        }
+        writeln!(&dyn_hist, "{}", formatted_string).unwrap();
     }
 }
 
@@ -941,16 +928,15 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            //Round is necessary!
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
 
             spin_chain.log();
 
             while spin_chain.t < spin_chain.vars.t {
+                let t_old = spin_chain.t;
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if reached_period(t_old, spin_chain.t, &spin_chain.vars).is_some() {
                         spin_chain.log();
                     }
                 } else {
@@ -1007,12 +993,12 @@ pub fn run_sim_response(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
 
             spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
 
             while spin_chain.t < spin_chain.vars.t {
+                let t_old = spin_chain.t;
                 if spin_chain.t < 0.0 {
                     spin_chain.update();
                 } else {
@@ -1020,8 +1006,7 @@ pub fn run_sim_response(conf: &mut Config) {
                 }
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t.abs() / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0
-                    {
+                    if reached_period(t_old, spin_chain.t, &spin_chain.vars).is_some() {
                         spin_chain.log();
                     }
                 } else {
@@ -1078,15 +1063,15 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
 
             spin_chain.log();
 
             while spin_chain.t < spin_chain.vars.t {
+                let t_old = spin_chain.t;
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if reached_period(t_old, spin_chain.t, &spin_chain.vars).is_some() {
                         spin_chain.log();
                     }
                 } else {
@@ -1184,55 +1169,24 @@ pub fn run_dyn_profile(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let _tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
 
             while spin_chain.t < spin_chain.vars.t {
+                let t_old = spin_chain.t;
                 spin_chain.update();
                 if spin_chain.t.fract() < spin_chain.vars.dt {
                     pb.set_position(spin_chain.t as u64);
                 }
 
-                let txc_matched = match spin_chain.t {
-                    _ if (spin_chain.t - 500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_500))
-                    }
-                    _ if (spin_chain.t - 1000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1000))
-                    }
-                    _ if (spin_chain.t - 1500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1500))
-                    }
-                    _ if (spin_chain.t - 2000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2000))
-                    }
-                    _ if (spin_chain.t - 2500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2500))
-                    }
-                    _ if (spin_chain.t - 3000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3000))
-                    }
-                    _ if (spin_chain.t - 3500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3500))
-                    }
-                    _ if (spin_chain.t - 4000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_4000))
-                    }
+                let period = reached_period(t_old, spin_chain.t, &spin_chain.vars);
+                let txc_matched = match period {
+                    Some(500) => Some(mpsc::Sender::clone(&txc_500)),
+                    Some(1000) => Some(mpsc::Sender::clone(&txc_1000)),
+                    Some(1500) => Some(mpsc::Sender::clone(&txc_1500)),
+                    Some(2000) => Some(mpsc::Sender::clone(&txc_2000)),
+                    Some(2500) => Some(mpsc::Sender::clone(&txc_2500)),
+                    Some(3000) => Some(mpsc::Sender::clone(&txc_3000)),
+                    Some(3500) => Some(mpsc::Sender::clone(&txc_3500)),
+                    Some(4000) => Some(mpsc::Sender::clone(&txc_4000)),
                     _ => None,
                 };
 
@@ -1336,15 +1290,15 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
 
             spin_chain.log();
 
             while spin_chain.t < spin_chain.vars.t {
+                let t_old = spin_chain.t;
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if reached_period(t_old, spin_chain.t, &spin_chain.vars).is_some() {
                         spin_chain.log_ext();
                     }
                 } else {
@@ -1369,6 +1323,16 @@ pub fn run_ext(conf: &mut Config) {
     println!("Finished {} runs", num);
 }
 
+/// Was a multiple of tau reached, to the nearest time step, in the step from t_old to t?
+/// If so, which one?
+fn reached_period(t_old: f64, t: f64, conf: &Config) -> Option<i64> {
+    let periods = |t: f64| ((t + 0.5 * conf.dt) / conf.tau + 1e-9).floor() as i64;
+    match periods(t) {
+        n if n != periods(t_old) => Some(n),
+        _ => None,
+    }
+}
+
 /// The lines of a log file, without a last line that was cut off by an interrupted run
 fn complete_lines(file: File) -> impl Iterator<Item = std::io::Result<String>> {
     let mut reader = BufReader::new(file);
-- 
2.43.0


From 9b03b4086960c071381c13ca687f61d0ac465135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 13/16] fix: finite spins at every temperature and without any
 field

---
 src/spin.rs               | 13 +++++++++++++
 src/spinchain.rs          |  5 +----
 src/spinchain_langevin.rs |  5 +----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/spin.rs b/src/spin.rs
index 571cad2..47a1914 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -94,6 +94,15 @@ impl Spin {
         [sub[0] / s, sub[1] / s, sub[2] / s]
     }
 
+    /// Inverse transform sampling of x = cos(theta) from the distribution P(x) = e^{beta x}, for a
+    /// uniform u. The weights are relative to the one of x = 1, so that none of them overflows.
+    pub fn canonical_cos(beta: f64, u: f64) -> f64 {
+        match beta {
+            _ if beta == 0.0 => 1.0 - 2.0 * u,
+            _ => (1.0 + (u * (-2.0 * beta).exp_m1()).ln_1p() / beta).clamp(-1.0, 1.0),
+        }
+    }
+
     pub fn rot_perp(old: &[f64; 2], rot_dir: &[f64; 3], rot_angle: f64) -> [f64; 2] {
         let mut old_spin = Spin::new_from_angles(old[0], old[1]);
         //        let oo_spin = old_spin.clone();
@@ -171,6 +180,10 @@ impl Spin {
     #[inline]
     pub fn rotate(&mut self, field: &[f64; 3], dt: f64) {
         let fs: f64 = field.iter().map(|x| x * x).sum::<f64>().sqrt();
+        //No field, no rotation
+        if fs == 0.0 {
+            return;
+        }
         let f: [f64; 3] = [field[0] / fs, field[1] / fs, field[2] / fs];
         let dts: f64 = fs * dt;
         let dc: f64 = dts.cos();
diff --git a/src/spinchain.rs b/src/spinchain.rs
index c44fd47..ee326e0 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -133,8 +133,6 @@ impl SpinChain {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -156,8 +154,7 @@ impl SpinChain {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                let rot_angle: f64 = Spin::canonical_cos(beta_eff, unif.sample(&mut r)).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index d505a88..1461dba 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -124,8 +124,6 @@ impl SpinChainLangevin {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -147,8 +145,7 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                let rot_angle: f64 = Spin::canonical_cos(beta_eff, unif.sample(&mut r)).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From 0299434f5e5b89d8fda2a44cf779db02651659cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 14/16] sim: carry out the K-th update of each K, not the first

---
 src/sim.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index 04ee895..b10259a 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -10,30 +10,31 @@ use std::sync::OnceLock;
 static EVERY: OnceLock<u64> = OnceLock::new();
 
 thread_local! {
-    static LEFT: Cell<u64> = const { Cell::new(0) };
+    static SKIPPED: Cell<u64> = const { Cell::new(0) };
 }
 
 #[cold]
 #[inline(never)]
-fn refill() -> u64 {
+fn every() -> u64 {
     *EVERY.get_or_init(|| {
         std::env::var("DST_THIN")
             .ok()
             .and_then(|v| v.parse::<u64>().ok())
             .unwrap_or(1)
+            .max(1)
     })
 }
 
 /// Should this Metropolis update be skipped?
 #[inline(always)]
 pub fn thinned() -> bool {
-    LEFT.with(|c| {
-        let n = c.get();
-        if n > 1 {
-            c.set(n - 1);
+    SKIPPED.with(|c| {
+        let n = c.get() + 1;
+        if n < *EVERY.get().unwrap_or(&0) || n < every() {
+            c.set(n);
             true
         } else {
-            c.set(refill());
+            c.set(0);
             false
         }
     })
-- 
2.43.0


From 0459d390ccbbbd82bd67b8aeeb5d7478fede4751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 15/16] fix: do not average over logs that cannot be read

---
 src/obs.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 44e20ba..a8d14f0 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1333,7 +1333,8 @@ fn reached_period(t_old: f64, t: f64, conf: &Config) -> Option<i64> {
     }
 }
 
-/// The lines of a log file, without a last line that was cut off by an interrupted run
+/// The lines of a log file, without a last line that was cut off by an interrupted run.
+/// A read error is final: skipping over it would mistake one line for another.
 fn complete_lines(file: File) -> impl Iterator<Item = std::io::Result<String>> {
     let mut reader = BufReader::new(file);
     std::iter::from_fn(move || {
@@ -1341,7 +1342,7 @@ fn complete_lines(file: File) -> impl Iterator<Item = std::io::Result<String>> {
         match reader.read_line(&mut line) {
             Ok(_) if line.ends_with('\n') => Some(Ok(line.trim_end().to_string())),
             Ok(_) => None,
-            Err(e) => Some(Err(e)),
+            Err(e) => panic!("Unable to read log file: {}", e),
         }
     })
 }
@@ -1439,7 +1440,7 @@ pub fn two_point_average(conf: &mut Config) {
                     }
                 }
             }
-            Err(e) => println!("Error reading file: {:?}", e),
+            Err(e) => panic!("Error reading file: {:?}", e),
         };
     }
 
@@ -1511,7 +1512,7 @@ pub fn average(conf: &mut Config) {
                     }
                 }
             }
-            Err(e) => println!("Error reading file: {:?}", e),
+            Err(e) => panic!("Error reading file: {:?}", e),
         };
     }
 
-- 
2.43.0


From 7ab9ce168bc65f41bca92ec3f5f19ac1cf13a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 16/16] fix: solve the inverse temperature accurately at high
 temperatures

The fixed-point iteration stopped when it moved by less than 0.01, but it
converges slowly for small energy densities: a configured density of -0.1
started chains at -0.144, and -0.01 at -0.102.
---
 src/spinchain.rs          | 2 +-
 src/spinchain_langevin.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index ee326e0..5b996a1 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -112,7 +112,7 @@ impl SpinChain {
         let mut beta: f64 = 20.0;
         let mut beta2: f64 = 10.0;
 
-        while (beta - beta2).abs() > 0.01 {
+        while (beta - beta2).abs() > 1e-9 {
             beta2 = beta;
             beta = 1.0 / (e + 1.0 / beta.tanh());
         }
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 1461dba..6794766 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -103,7 +103,7 @@ impl SpinChainLangevin {
         let mut beta: f64 = 20.0;
         let mut beta2: f64 = 10.0;
 
-        while (beta - beta2).abs() > 0.01 {
+        while (beta - beta2).abs() > 1e-9 {
             beta2 = beta;
             beta = 1.0 / (e + 1.0 / beta.tanh());
         }
-- 
2.43.0

