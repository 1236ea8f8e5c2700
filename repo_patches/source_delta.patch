From 2ebff996df79685b8f7b28eb85c8f5cc70f380a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:56 +0000
Subject: [PATCH 01/15] fix: fast_tan and fast_tanf return NaN for subnormal
 arguments

The unused -1/res branch overflowed to infinity and was multiplied by 0.
Use 1 as its denominator when the branch is not selected.
---
 include/tan.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tan.h b/include/tan.h
index c1ec59d..0392ea0 100644
--- a/include/tan.h
+++ b/include/tan.h
@@ -118,7 +118,8 @@ inline double fast_tan(double x){
     // Avoid fpe generated by 1/0 if res is 0
     const double zeroIfXNonZero = (x==0.);
     res += zeroIfXNonZero;
-    res = quad * (-1./res) + alt * res; // one coeff is one and one is 0!
+    // alt protects from 1/res overflowing (0*inf=NaN) for subnormal res
+    res = quad * (-1./(quad*res+alt)) + alt * res; // one coeff is one and one is 0!
 
     // Again, return 0 if res==0, the correct result otherwhise
     return details::dpXORuint64(res,sign_mask) * (1.-zeroIfXNonZero);
@@ -155,7 +156,8 @@ inline float fast_tanf(float x){
     // Avoid fpe generated by 1/0 if res is 0
     const float zeroIfXNonZero = (x==0.f);
     res += zeroIfXNonZero;
-    res = quad * (-1.f/res) + alt * res; // one coeff is one and one is 0!
+    // alt protects from 1/res overflowing (0*inf=NaN) for subnormal res
+    res = quad * (-1.f/(quad*res+alt)) + alt * res; // one coeff is one and one is 0!
 
     return details::spXORuint32(res,sign_mask) * (1.f-zeroIfXNonZero);
 
-- 
2.43.0


From 9be526b1d953f5e3cf577b88fd2d6a9d5c90b337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:21 +0000
Subject: [PATCH 02/15] fix: fast_log and fast_logf turn NaN into a finite
 number

The range check only looked for negative arguments, so a NaN argument
gave about 710 (double) or 89 (float). Reject it together with them.
---
 include/log.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/log.h b/include/log.h
index ddda848..5ee717f 100644
--- a/include/log.h
+++ b/include/log.h
@@ -118,7 +118,7 @@ inline double fast_log(double x){
 
 	if (original_x > details::LOG_UPPER_LIMIT)
 		res = std::numeric_limits<double>::infinity();
-	if (original_x < details::LOG_LOWER_LIMIT) // THIS IS NAN!
+	if (!(original_x >= details::LOG_LOWER_LIMIT)) // THIS IS NAN!
 		res =  - std::numeric_limits<double>::quiet_NaN();
 
 	return res;
@@ -193,7 +193,7 @@ inline float fast_logf( float x ) {
 
 	if (original_x > details::LOGF_UPPER_LIMIT)
 		res = std::numeric_limits<float>::infinity();
-	if (original_x < details::LOGF_LOWER_LIMIT)
+	if (!(original_x >= details::LOGF_LOWER_LIMIT)) // also for NaN
 		res = -std::numeric_limits<float>::quiet_NaN();
 
 	return res;
-- 
2.43.0


From 53a70e27fd20be5a3fed785cfa7e40e03df559e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:21 +0000
Subject: [PATCH 03/15] fix: fast_atan2f(0,0) computes 0/0 and raises
 FE_INVALID

The protection against a zero denominator was commented out; the double
precision version already has it.
---
 include/atan2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/atan2.h b/include/atan2.h
index 62f9249..bf70eef 100644
--- a/include/atan2.h
+++ b/include/atan2.h
@@ -105,7 +105,7 @@ inline float fast_atan2f( float y, float x ) {
     // To avoid the fpe, we protect against /0.
     const float oneIfXXZero = (xx==0.f);
     
-    float t=yy/(xx/*+oneIfXXZero*/);
+    float t=yy/(xx+oneIfXXZero);
     float z=t;
     if( t > 0.4142135623730950f ) // * tan pi/8
             z = (t-1.0f)/(t+1.0f);
-- 
2.43.0


From 31f10d1e24af4bf853b38f96034282c266797d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:21 +0000
Subject: [PATCH 04/15] fix: elapsed time is wrong when the interval crosses a
 full second

The negative nanosecond difference was stored in an unsigned integer and
then summed as a double. Do the sum with signed integers.
---
 include/diagnostic/vdtdiag_helper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 6dcb6f5..3b20b54 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -380,8 +380,8 @@ private:
 		timespec temp;
 		temp.tv_sec = m_time2.tv_sec-m_time1.tv_sec;
 		temp.tv_nsec = m_time2.tv_nsec-m_time1.tv_nsec;
-		uint64_t elapsed_time = temp.tv_nsec;
-		elapsed_time += 1e9*temp.tv_sec;
+		// tv_nsec can be negative: sum as signed integers
+		const int64_t elapsed_time = int64_t(temp.tv_sec)*1000000000 + temp.tv_nsec;
 		return elapsed_time;
 	}
 
-- 
2.43.0


From e2ccdfb8227cf32d9789f4a0180849492f78a5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:21 +0000
Subject: [PATCH 05/15] fix: different bits are overcounted just below a power
 of two

log2 of a difference like 2^63-1 rounds up to 63. For identical numbers
the result relied on converting -infinity to an integer. Count the bits
with integer operations.
---
 include/diagnostic/vdtdiag_helper.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_helper.h b/include/diagnostic/vdtdiag_helper.h
index 3b20b54..2af311d 100644
--- a/include/diagnostic/vdtdiag_helper.h
+++ b/include/diagnostic/vdtdiag_helper.h
@@ -178,8 +178,10 @@ uint16_t diffbit(const T a,const T b ){
 	uint64_t ib = fp2uint64(b);
 	uint64_t c = ia>ib? ia-ib : ib -ia;
 	//uint64_t c = ia^ib;
-	/// return the log2+1
-	return log2(c)+1;
+	/// return the log2+1, i.e. the number of significant bits (0 if identical)
+	uint16_t nbits=0;
+	for (;c!=0;c>>=1) ++nbits;
+	return nbits;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 781086198bf83e432ce822665a6581acb2b797b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:21 +0000
Subject: [PATCH 06/15] fix: identity.h and stdwrap.h do not compile on their
 own

They use uint32_t and std::sqrt without including the headers that
declare them.
---
 include/identity.h | 2 ++
 include/stdwrap.h  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/identity.h b/include/identity.h
index 88fc726..2587c9d 100644
--- a/include/identity.h
+++ b/include/identity.h
@@ -24,6 +24,8 @@
 #ifndef IDENTITY_H_
 #define IDENTITY_H_
 
+#include "inttypes.h"
+
 namespace vdt{
 
 // Identity double precision ---------------------------------------------------
diff --git a/include/stdwrap.h b/include/stdwrap.h
index fc0c958..1f51c59 100644
--- a/include/stdwrap.h
+++ b/include/stdwrap.h
@@ -1,6 +1,8 @@
 #ifndef _VDT_STD_H_
 #define _VDT_STD_H_
 
+#include <cmath>
+
 // wrapper around std function just to benefit of naming
 // to be used in vectorized wrappers
 
-- 
2.43.0


From 9fa5de39966c8b1c16aea0e29afeef201a0c8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:44 +0000
Subject: [PATCH 07/15] fix: writing an object back to the file it was read
 from loses its data

The output was truncated before the input file, which is copied, was
read. Prepare the content in memory and open the output at the end.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 8 ++++++--
 include/diagnostic/vdtdiag_fcnResponse.h   | 8 ++++++--
 include/diagnostic/vdtdiag_random.h        | 9 +++++++--
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 8078e80..9be1b32 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -111,7 +111,8 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
+		// Written at the end: the output can be the input file itself
+		std::ostringstream ofile;
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
 			std::string line;
@@ -141,6 +142,7 @@ public:
 				<< fpToHex<T>(IfcnComparison<T>::m_out2[i]) << IfcnComparison<T>::m_diff_bitv[i] << " "
 				<< std::fixed << m_input[i] <<std::endl;	//m_input[i] for python to easily read it
 		}
+		std::ofstream ( output_filename ) << ofile.str();
 	}
 
 //------------------------------------------------------------------------------
@@ -228,7 +230,8 @@ public:
   /// Dump on ascii file
 	void writeFile(const std::string& output_filename){
 		const std::string preamble("VDT function arithmetics performance comparison file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
+		// Written at the end: the output can be the input file itself
+		std::ostringstream ofile;
 		// Copy the input file if the object was created from file
 		if (IfcnComparison<T>::m_from_file){
 			std::string line;
@@ -259,6 +262,7 @@ public:
 				<< IfcnComparison<T>::m_diff_bitv[i] << " "
 				<< std::fixed << m_input1[i] << " " << m_input2[i] <<std::endl;	//inputs for python to easily read it
 		}
+		std::ofstream ( output_filename ) << ofile.str();
 	}
 
 //------------------------------------------------------------------------------
diff --git a/include/diagnostic/vdtdiag_fcnResponse.h b/include/diagnostic/vdtdiag_fcnResponse.h
index c3d2cf2..4730fcd 100644
--- a/include/diagnostic/vdtdiag_fcnResponse.h
+++ b/include/diagnostic/vdtdiag_fcnResponse.h
@@ -99,7 +99,8 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
+		// Written at the end: the output can be the input file itself
+		std::ostringstream ofile;
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
 			std::string line;
@@ -121,6 +122,7 @@ public:
 			for (uint32_t i=0;i<this->getInput().size();++i)
 				ofile << fpToHex<T>(inputVal(i)) << fpToHex<T>(outputVal(i)) << std::endl;
 		}
+		std::ofstream ( output_filename ) << ofile.str();
 	}
 
 	//-----------------------------------------------------------------------------
@@ -217,7 +219,8 @@ public:
 	/// Dump on ascii file
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT function arithmetics performance 1 input file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
+		// Written at the end: the output can be the input file itself
+		std::ostringstream ofile;
 		// Copy the input file if the object was created from file
 		if (IfcnResponse<T>::isFromFile()){
 			std::string line;
@@ -240,6 +243,7 @@ public:
 				ofile << fpToHex<T>(input1Val(i)) << fpToHex<T>(input2Val(i))
 				<< fpToHex<T>(outputVal(i)) << std::endl;
 		}
+		std::ofstream ( output_filename ) << ofile.str();
 	}
 
 	//-----------------------------------------------------------------------------
diff --git a/include/diagnostic/vdtdiag_random.h b/include/diagnostic/vdtdiag_random.h
index b8e4f94..f92cdff 100644
--- a/include/diagnostic/vdtdiag_random.h
+++ b/include/diagnostic/vdtdiag_random.h
@@ -26,6 +26,7 @@
 
 #include <vector>
 #include <fstream>
+#include <sstream>
 #include "vdtcore_common.h"
 #include "vdtdiag_filePersistence.h"
 #include "vdtdiag_interfaces.h"
@@ -77,7 +78,8 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
+		// Written at the end: the output can be the input file itself
+		std::ostringstream ofile;
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
 			std::string line;
@@ -101,6 +103,7 @@ public:
 					ofile << fpToHex<T>(m_numbers[i]);
 			ofile << std::setbase(10);
 		}
+		std::ofstream ( output_filename ) << ofile.str();
 	}
 
 	//-----------------------------------------------------------------------------
@@ -176,7 +179,8 @@ public:
 	/// Write numbers on disk in the form of an ascii file. The numbers are in HEX format.
 	void writeFile(const std::string& output_filename) {
 		const std::string preamble("VDT Random numbers file 2D (the first 5 lines are the header)\n");
-		std::ofstream ofile ( output_filename );
+		// Written at the end: the output can be the input file itself
+		std::ostringstream ofile;
 		// Copy the input file if the object was created from file
 		if (getSize()==0 ){
 			std::string line;
@@ -205,6 +209,7 @@ public:
 				}
 			ofile << std::setbase(10);
 		}
+		std::ofstream ( output_filename ) << ofile.str();
 	}
 
 	//-----------------------------------------------------------------------------
-- 
2.43.0


From e31d63b73dc0d08eeea55e102132146bb385408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:22:44 +0000
Subject: [PATCH 08/15] fix: reading a comparison stops at the first infinite
 or NaN input

The decimal copy of the input was parsed as a number, which fails for inf
and nan. It is not used: skip it as text.
---
 include/diagnostic/vdtdiag_fcnComparison.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnComparison.h b/include/diagnostic/vdtdiag_fcnComparison.h
index 9be1b32..c349d15 100644
--- a/include/diagnostic/vdtdiag_fcnComparison.h
+++ b/include/diagnostic/vdtdiag_fcnComparison.h
@@ -66,7 +66,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy;	//input value for Python, now useless
+			std::string dummy;	//input value for Python, now useless
 			while(ifile >> in_val >> out1_val >> out2_val >> tmp_diff >> dummy) {
 				m_input.push_back(in_val.getValue());
 				IfcnComparison<T>::m_out1.push_back(out1_val.getValue());
@@ -184,7 +184,7 @@ public:
 			//read rest of file
 			fpFromHex<T> in_val1, in_val2, out1_val, out2_val;
 			uint16_t tmp_diff;
-			T dummy1, dummy2;	//input value for Python, now useless
+			std::string dummy1, dummy2;	//input value for Python, now useless
 			while(ifile >> in_val1 >> in_val2 >> out1_val >> out2_val >> tmp_diff >> dummy1 >> dummy2) {
 				m_input1.push_back(in_val1.getValue());
 				m_input2.push_back(in_val2.getValue());
-- 
2.43.0


From 873c5855643d72700ed7bb3a4b244c229205860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:53 +0000
Subject: [PATCH 09/15] fix: tell two-argument responses by their function, not
 by the filename

vdtArithmComparison read every reference file whose path contains Atan2 as a
file with two inputs per row. With a nickname or a directory named like that,
responses of one-argument functions were misread.
---
 progs/vdtArithmComparison.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/progs/vdtArithmComparison.cpp b/progs/vdtArithmComparison.cpp
index c250f2d..227d1ce 100644
--- a/progs/vdtArithmComparison.cpp
+++ b/progs/vdtArithmComparison.cpp
@@ -135,7 +135,8 @@ int main(int argc, char **argv){
 		ifile.close();
 
 		//read responses, perform comparison
-		bool is_atan2 = ref[i].find("Atan2") != std::string::npos ? true:false;
+		//by the function, as nicknames and directories may contain anything
+		bool is_atan2 = fcname.find("Atan2") != std::string::npos ? true:false;
 		if(!singlePrec){
 			if (is_atan2){
 				fcnResponse2D<double> rrefDP(ref[i]),rtestDP(test[i]);
-- 
2.43.0


From df830a272bb0f186e8aa2db101c171e731e136e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:35 +0000
Subject: [PATCH 10/15] fix: count evaluations with 64 bits in performance
 measurements

---
 include/diagnostic/vdtdiag_fcnPerformance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index 0787314..fa809d4 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -205,7 +205,7 @@ private:
   delete [] results_arr;
   
   // Calculate mean and error on the mean
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
   //-----------------------------------------------------------------------------
@@ -253,7 +253,7 @@ private:
     delete [] results_arr;
 
     // Calculate mean and error on the mean
-    const uint64_t iterations = size * m_repetitions;
+    const uint64_t iterations = uint64_t(size) * m_repetitions;
     calculate_mean_and_err(t,t2,iterations);
     }
 //-----------------------------------------------------------------------------
@@ -289,7 +289,7 @@ private:
      fool_optimisation(results);
     }
     
-  const uint64_t iterations = size * m_repetitions;
+  const uint64_t iterations = uint64_t(size) * m_repetitions;
   calculate_mean_and_err(t,t2,iterations);
   }
 
@@ -327,7 +327,7 @@ void measureTime2Dv(){
 			 fool_optimisation(results);
 			}
 
-		const uint64_t iterations = size * m_repetitions;
+		const uint64_t iterations = uint64_t(size) * m_repetitions;
 		calculate_mean_and_err(t,t2,iterations);
 		}
 
-- 
2.43.0


From e70830a4d1c3f7e17bb64ce57222eaeb0380e7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:15:36 +0000
Subject: [PATCH 11/15] fix: the generator of the Vc wrappers only ran under
 Python 2

It opened its output with the file() builtin, which Python 3 does not have.
---
 src/vc_wrapper_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vc_wrapper_generator.py b/src/vc_wrapper_generator.py
index 057e6dc..529ffdd 100644
--- a/src/vc_wrapper_generator.py
+++ b/src/vc_wrapper_generator.py
@@ -153,14 +153,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VC_WRAPPER_HEADER,'w')
+  ofile=open(VC_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VC_WRAPPER_IMPL,'w')
+  ofile=open(VC_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
-- 
2.43.0


From fe662e8f5271be8c0955713984d015485bb7c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:21:42 +0000
Subject: [PATCH 12/15] fix: error of the mean time from the spread of the
 repetitions

The squared times of whole repetitions were combined with the number of
single calls, so the error was wrong for more than one input, and the
squares overflowed for repetitions longer than four seconds. The error is
now the standard error of the mean over the timed repetitions.
---
 include/diagnostic/vdtdiag_fcnPerformance.h | 27 ++++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/diagnostic/vdtdiag_fcnPerformance.h b/include/diagnostic/vdtdiag_fcnPerformance.h
index fa809d4..8b21a83 100644
--- a/include/diagnostic/vdtdiag_fcnPerformance.h
+++ b/include/diagnostic/vdtdiag_fcnPerformance.h
@@ -1,6 +1,7 @@
 #ifndef VDTDIAG_FCNPERFORMANCE_H_
 #define VDTDIAG_FCNPERFORMANCE_H_
 
+#include <algorithm>
 #include <iomanip>
 #include "vdtdiag_helper.h"
 
@@ -167,7 +168,7 @@ private:
   
   // momenta to calculate mean and rms, they will be filled later
   uint64_t t=0;
-  uint64_t t2=0;
+  double t2=0;
 
   // An useful quantity
   const uint32_t size=m_input.size();
@@ -195,7 +196,7 @@ private:
     if (irep>=warm_up){
       deltat=fcntimer.get_elapsed_time();      
       t+=deltat;
-      t2+=deltat*deltat;
+      t2+=double(deltat)*deltat;
       }
       
     // To avoid optimisations, call a dummy function
@@ -214,7 +215,7 @@ private:
 
     // momenta to calculate mean and rms, they will be filled later
     uint64_t t=0;
-    uint64_t t2=0;
+    double t2=0;
 
     // An useful quantity
     const uint32_t size=m_input.size();
@@ -243,7 +244,7 @@ private:
       if (irep>=warm_up){
         deltat=fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
       // To avoid optimisations, call a dummy function
@@ -261,7 +262,7 @@ private:
   void measureTimev(){
   // See explainations in the scalar method!
   uint64_t t=0.;
-  uint64_t t2=0.;
+  double t2=0.;
 
   const uint32_t size=m_input.size();
 
@@ -281,7 +282,7 @@ private:
       if (irep>=warm_up){
       	deltat = fcntimer.get_elapsed_time();
         t+=deltat;
-        t2+=deltat*deltat;
+        t2+=double(deltat)*deltat;
         }
 
      std::vector<T> results(results_arr,results_arr+size);
@@ -298,7 +299,7 @@ private:
 void measureTime2Dv(){
 	// See explainations in the scalar method!
 		uint64_t t=0.;
-		uint64_t t2=0.;
+		double t2=0.;
 
 		const uint32_t size=m_input.size();
 
@@ -319,7 +320,7 @@ void measureTime2Dv(){
 				if (irep>=warm_up){
 					deltat = fcntimer.get_elapsed_time();
 					t+=deltat;
-					t2+=deltat*deltat;
+					t2+=double(deltat)*deltat;
 					}
 
 			 std::vector<T> results(results_arr,results_arr+size);
@@ -346,11 +347,13 @@ void calculate_mean_and_err(const double t, const double t2,const uint64_t itera
   // Mean is easy
   m_avg_time = t / iterations;
 
-  // Calculate the error on the mean
-  // RMS, one dof is gone for the mean, so iterations-1
-  const double rms2=(double(t2) - iterations*m_avg_time*m_avg_time)/(iterations-1);
+  // Calculate the error on the mean from the spread of the repetitions: these are measured, not the single calls
+  const double reps=m_repetitions;
+  const double rep_time=t/reps;
+  // RMS, one dof is gone for the mean, so reps-1 (0 for a single repetition). Rounding can make it slightly negative
+  const double rms2=std::max(0.,t2 - t*rep_time)/std::max(1.,reps-1);
   const double rms=sqrt(rms2);
-  m_avg_time_err = rms / sqrt(iterations); //2 sqrts, but we go for clarity here.
+  m_avg_time_err = rms / sqrt(reps) * reps / iterations; //2 sqrts, but we go for clarity here.
 
 }
 
-- 
2.43.0


From 2d27845e7a441188e1e463d276b8dcb0230fdf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:07:07 +0000
Subject: [PATCH 13/15] fix: NumPy wrapper generator under Python 3

The file() builtin is gone in Python 3, so the generator failed there.
---
 src/numpy_wrapper_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/numpy_wrapper_generator.py b/src/numpy_wrapper_generator.py
index 2bf8c6e..41dcaf4 100644
--- a/src/numpy_wrapper_generator.py
+++ b/src/numpy_wrapper_generator.py
@@ -256,7 +256,7 @@ def create_python():
       for fcn_name in sorted(FUNCTIONS_LIST):
         code+=get_python_function(fcn_name,is_double,is_vector)
 
-  ofile=file(VDT_PYTHON_MODULE,'w')
+  ofile=open(VDT_PYTHON_MODULE,'w')
   ofile.write(code)
   ofile.close()
 
@@ -296,7 +296,7 @@ def create_numpy_header():
   code+=data+fname+fdoc;
 
 
-  ofile=file(VDT_NUMPY_WRAPPER_HEADER,'w')
+  ofile=open(VDT_NUMPY_WRAPPER_HEADER,'w')
   ofile.write(code)
   ofile.close()
 
@@ -332,14 +332,14 @@ def get_impl_file():
 #------------------------------------------------------------------
 
 def create_header():
-  ofile=file(VDT_WRAPPER_HEADER,'w')
+  ofile=open(VDT_WRAPPER_HEADER,'w')
   ofile.write(get_header_file())
   ofile.close()
   
 #------------------------------------------------------------------
 
 def create_impl():
-  ofile=file(VDT_WRAPPER_IMPL,'w')
+  ofile=open(VDT_WRAPPER_IMPL,'w')
   ofile.write(get_impl_file())
   ofile.close()
 
-- 
2.43.0


From 55a2c6e8133a8bbca816cf5e72fd072e5805fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:07:07 +0000
Subject: [PATCH 14/15] fix: register all functions of the NumPy module under
 Python 3

The names were taken from the address of the name table instead of its
entries, and division and both fused multiply-adds were missing.
---
 src/vdtNumpyWrapper.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index dc7b39e..131243d 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -181,10 +181,10 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
       vdt_v = PyUFunc_FromFuncAndData(funcs, data+2*i, types, 2, 1, 1,
                                     PyUFunc_None, fname[i],
                                     fdoc[i], 0);
-      PyDict_SetItemString(d, fname+i, vdt_v);
+      PyDict_SetItemString(d, fname[i], vdt_v);
       Py_DECREF(vdt_v);
     }
-    // add sincos and atan2 by hand
+    // add sincos, atan2 div,fma and fmac by hand
     vdt_v = PyUFunc_FromFuncAndData(funcs12, dataSinCos, types12, 2, 1, 2,
 				    PyUFunc_None, "vdt_sincos",
 				    "vdt_sincos", 0);
@@ -196,6 +196,21 @@ PyMODINIT_FUNC PyInit_vdtnpfun(void)
     PyDict_SetItemString(d,  "vdt_atan2", vdt_v);
     Py_DECREF(vdt_v);
 
+    vdt_v = PyUFunc_FromFuncAndData(funcs21, dataDiv, types12, 2, 2, 1,
+				    PyUFunc_None, "vdt_div",
+				    "vdt_div", 0);
+    PyDict_SetItemString(d,  "vdt_div", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMA, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fma",
+				    "vdt_fma", 0);
+    PyDict_SetItemString(d,  "vdt_fma", vdt_v);
+    Py_DECREF(vdt_v);
+    vdt_v = PyUFunc_FromFuncAndData(funcs31, dataFMAC, types31, 2, 3, 1,
+				    PyUFunc_None, "vdt_fmac",
+				    "correctly rounded fma", 0);
+    PyDict_SetItemString(d,  "vdt_fmac", vdt_v);
+    Py_DECREF(vdt_v);
 
     return m;
 }
-- 
2.43.0


From 4fc46e34137b75cb4e4bd57e0069397bfb033e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:07:22 +0000
Subject: [PATCH 15/15] fix: honour the steps of arrays in the NumPy loops

NumPy passes spaced, reversed and broadcast arrays to the loops too; they
were all treated as contiguous.
---
 src/vdtNumpyWrapper.c | 65 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 16 deletions(-)

diff --git a/src/vdtNumpyWrapper.c b/src/vdtNumpyWrapper.c
index 131243d..842e374 100644
--- a/src/vdtNumpyWrapper.c
+++ b/src/vdtNumpyWrapper.c
@@ -24,6 +24,15 @@ static PyMethodDef vdt_Methods[] = {
         {NULL, NULL, 0, NULL}
 };
 
+/* The functions take contiguous arrays: anything else goes element by element */
+static int is_contiguous(const npy_intp* steps, int nargs, npy_intp size)
+{
+  for (int i=0;i<nargs;++i)
+    if (steps[i]!=size)
+      return 0;
+  return 1;
+}
+
 /* The loop definition must precede the PyMODINIT_FUNC. */
 
 static void vdt_vf(char **args, npy_intp *dimensions,
@@ -34,9 +43,12 @@ static void vdt_vf(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
 
-  (*functionPtr)((const float *)in, (float *)out,n); 
+  if (is_contiguous(steps,2,sizeof(float)))
+    (*functionPtr)((const float *)in, (float *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in+i*steps[0]), (float *)(out+i*steps[1]),1);
 }
 
 static void vdt_vd(char **args, npy_intp *dimensions,
@@ -47,9 +59,12 @@ static void vdt_vd(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out = args[1];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const double *)in, (double *)out,n); 
+  if (is_contiguous(steps,2,sizeof(double)))
+    (*functionPtr)((const double *)in, (double *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in+i*steps[0]), (double *)(out+i*steps[1]),1);
 }
 
 
@@ -62,9 +77,12 @@ static void vdt_vf21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n); 
+  if (is_contiguous(steps,3,sizeof(float)))
+    (*functionPtr)((const float *)in1, (const float *)in2, (float *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in1+i*steps[0]), (const float *)(in2+i*steps[1]), (float *)(out+i*steps[2]),1);
 }
 
 static void vdt_vf12(char **args, npy_intp *dimensions,
@@ -75,9 +93,12 @@ static void vdt_vf12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0], *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n); 
+  if (is_contiguous(steps,3,sizeof(float)))
+    (*functionPtr)((const float *)in, (float *)out1, (float *)out2,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in+i*steps[0]), (float *)(out1+i*steps[1]), (float *)(out2+i*steps[2]),1);
 }
 
 static void vdt_vf31(char **args, npy_intp *dimensions,
@@ -88,9 +109,12 @@ static void vdt_vf31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const float *)in1, (const float *)in2,(const float *)in3, (float *)out,n); 
+  if (is_contiguous(steps,4,sizeof(float)))
+    (*functionPtr)((const float *)in1, (const float *)in2, (const float *)in3, (float *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const float *)(in1+i*steps[0]), (const float *)(in2+i*steps[1]), (const float *)(in3+i*steps[2]), (float *)(out+i*steps[3]),1);
 }
 
 
@@ -102,9 +126,12 @@ static void vdt_vd21(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *out = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n); 
+  if (is_contiguous(steps,3,sizeof(double)))
+    (*functionPtr)((const double *)in1, (const double *)in2, (double *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in1+i*steps[0]), (const double *)(in2+i*steps[1]), (double *)(out+i*steps[2]),1);
 }
 
 static void vdt_vd12(char **args, npy_intp *dimensions,
@@ -115,9 +142,12 @@ static void vdt_vd12(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in = args[0],  *out1 = args[1], *out2 = args[2];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n); 
+  if (is_contiguous(steps,3,sizeof(double)))
+    (*functionPtr)((const double *)in, (double *)out1, (double *)out2,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in+i*steps[0]), (double *)(out1+i*steps[1]), (double *)(out2+i*steps[2]),1);
 }
 
 static void vdt_vd31(char **args, npy_intp *dimensions,
@@ -128,9 +158,12 @@ static void vdt_vd31(char **args, npy_intp *dimensions,
   
   npy_intp n = dimensions[0];
   char *in1 = args[0], *in2 = args[1], *in3 = args[2], *out = args[3];
-  /* npy_intp in_step = steps[0], out_step = steps[1]; */
   
-  (*functionPtr)((const double *)in1, (const double *)in2,(const double *)in3, (double *)out,n); 
+  if (is_contiguous(steps,4,sizeof(double)))
+    (*functionPtr)((const double *)in1, (const double *)in2, (const double *)in3, (double *)out,n);
+  else
+    for (npy_intp i=0;i<n;++i)
+      (*functionPtr)((const double *)(in1+i*steps[0]), (const double *)(in2+i*steps[1]), (const double *)(in3+i*steps[2]), (double *)(out+i*steps[3]),1);
 }
 
 
-- 
2.43.0

