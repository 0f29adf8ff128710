From 45801a3fa5a25758c26cd23d8e2572e8aadea3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:35 +0000
Subject: [PATCH 001/104] fix: accept a requested temperature that is present
 in the ACE file

The membership test looked at the characters of the requested string
instead of the temperatures on the file, so every explicit temperature
was rejected.
---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 28a971a..456573d 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -38,7 +38,7 @@ class AceEditor:
                 # try to see if the user left off "K"
                 temperature += 'K'
 
-            if temperature not in list(temperature):
+            if temperature not in list(temperatures):
                 raise Exception("Could not find temperature {0} in ace file".format(temperature))
 
         self.temperature = temperature
-- 
2.43.0


From 9877abdf2e158154fe7dbdd562eea332310eaf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:35 +0000
Subject: [PATCH 002/104] fix: write sampled data with current pandas

DataFrame.iteritems was removed in pandas 2, so no sampled ACE file could
be written at all.
---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 46d90d2..91bf33f 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -732,7 +732,7 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
-    for sample_number, _ in sample_dfs_rel[0].iteritems():
+    for sample_number, _ in sample_dfs_rel[0].items():
         if sample_number % size != rank: continue
 
         # load the base ace file to get a fresh copy
-- 
2.43.0


From dc96fd67fbf807be934cf1e43533d1a65b7f692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:35 +0000
Subject: [PATCH 003/104] fix: keep zero cross section points at zero in
 sampled ACE files

Points with a zero cross section (e.g. at a threshold) were set to 1.0
before multiplying with the sampled factor, which put a cross section of
about one barn there (and one neutron for a zero nu-bar).
---
 ASAPy/XsecSampler.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 91bf33f..0267f5d 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -754,9 +754,6 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
                     sampled_xsec.append(map_groups_to_continuous(e_to_map_on, xsec['e high'], col,
                                                                  min_e=xsec['e low'].min()) * pdf_for_e_out)
             else:
-                # in case we get a 0 mean set it to 1.0. The sample_df sets rel_dev
-                original_sigma[original_sigma == 0] = 1
-
                 sampled_xsec = map_groups_to_continuous(e, xsec['e high'], col,min_e=xsec['e low'].min()) * original_sigma
 
             ae.set_sigma(mt, sampled_xsec)
-- 
2.43.0


From cfbf658220a223a4e6590dc375dfc624a7ca347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:35 +0000
Subject: [PATCH 004/104] fix: give groups with a zero mean a neutral relative
 sample

Dividing by a zero mean gives NaN only if the sample is zero too; any
other sample gave an infinite factor which then went into the ACE file,
and a NaN was replaced by a factor of zero.
---
 ASAPy/XsecSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 0267f5d..5a4e0e3 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -380,9 +380,9 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
 
     sample_df = xsec._sample_check(sample_df_full_vals.T, mean, remove_neg=False)
 
-    # if a NaN is found at this point, it's because the sample_df (rel) calc divided by 0 mean,
-    # set the rel dev to the value sampled + 1.0. Later we can check if mean = 0 and if it is just use rel dev
-    sample_df[sample_df.isna()] = sample_df_full_vals[sample_df.isna()]
+    # the relative value of a group with a 0 mean is not defined (0/0 or x/0), there is nothing to scale so leave
+    # that group as it is
+    sample_df.loc[mean == 0] = 1.0
 
     return sample_df, sample_df_full_vals
 
-- 
2.43.0


From 51698f819e0cfb50144ad8465d7a6568abbe71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:35 +0000
Subject: [PATCH 005/104] fix: map an energy equal to the minimum energy to the
 lowest group

searchsorted puts it in front of all bins, which was translated to a
group number that does not exist and raised a KeyError.
---
 ASAPy/XsecSampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 5a4e0e3..8635a78 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -298,6 +298,8 @@ def map_groups_to_continuous(e_sigma, high_e_bins, multi_group_val, max_e=None,
     # this makes it easier to index indo multi_group_val
     group_nums[bins_too_low] = num_groups
     group_nums[bins_too_high] = 1
+    # an energy exactly at min_e sorts in front of all bins but belongs to the lowest one
+    group_nums[e_sigma_ev == min_e] = num_groups
 
     std_dev_mapped_to_e_groups = multi_group_val[group_nums].values
 
-- 
2.43.0


From 6c8ac43e10ce88ebf9cd914f8d20427efbc67d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:35 +0000
Subject: [PATCH 006/104] fix: never sample groups without correlation data

Groups with a zero on the diagonal of the correlation matrix were only
left out of the sampling when some other group was left out as well.
---
 ASAPy/CovManipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 5c3a794..0bf9f9e 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -319,6 +319,8 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         set_zero_corr_to_zero = np.diag(desired_corr) == 0
         if vars_to_not_sample_idx is not None:
             vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_corr_to_zero)]
+        else:
+            vars_to_not_sample_idx = set_zero_corr_to_zero
 
     # only sample from things that are deemed samplable
     if vars_to_not_sample_idx is not None:
-- 
2.43.0


From b1f609856a717a191bb63b6e0d5bc371a6c9c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:35 +0000
Subject: [PATCH 007/104] fix: undo the pivoting of the modified Cholesky
 factors when sampling

gmw_cholesky factors a permuted matrix. Without applying the permutation
the correlations were given to the wrong variables.
---
 ASAPy/CovManipulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 0bf9f9e..d0de9c0 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -366,7 +366,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         C = sp.linalg.cholesky(desired_corr)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(desired_corr)
-        C = L.T
+        C = np.dot(P, L).T
 
     M = col_independent_matrix(num_samples, num_vars)
     D = (1. / num_samples) * np.dot(M.T, M)
@@ -375,7 +375,7 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         E = sp.linalg.cholesky(D)
     except np.linalg.LinAlgError:
         P, L, e = gmw_cholesky(D)
-        E = L.T
+        E = np.dot(P, L).T
 
     N = np.dot(np.dot(M, np.linalg.inv(E)), C)
     R = rank(N)
-- 
2.43.0


From f558cc028e977e1b2d26d1b36665e24cff2ce36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:35 +0000
Subject: [PATCH 008/104] fix: sample the uniform distribution with the
 requested mean and std dev

The mean and standard deviation were passed as lower end and width of the
interval.
---
 ASAPy/CovManipulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index d0de9c0..61cd099 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -398,6 +398,9 @@ def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='no
         distro_to_sample_from = sci_norm
 
     elif distro == 'uniform':
+        # scipy's uniform is on [loc, loc + scale], which must have the requested mean and std dev
+        mean_values = mean_values - 3 ** 0.5 * std_dev
+        std_dev = 2 * 3 ** 0.5 * std_dev
         distro_to_sample_from = uniform
 
     else:
-- 
2.43.0


From a984de4d89aeaca73eb7d5ce39d19286d54ed105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 009/104] fix: carry every changed reaction into the sums it is
 part of

The constituent lists left out changed reactions whenever a sum in between
is not on the ace file (inelastic levels without MT=4 never reached the
total, MT=103-107 themselves never reached MT=101, partial fission without
MT=18, ...). Use the ENDF sum rules and replace absent sums by their parts,
as the docstring asks for.
---
 ASAPy/AceIO.py | 47 +++++++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 456573d..37ead8a 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -1,5 +1,6 @@
 import re
 from .data import neutron
+from .data.endf import SUM_RULES
 import numpy as np
 import os
 import copy
@@ -331,30 +332,9 @@ class AceEditor:
         # potential for round-off error but each mt is summed individually so order does not matter.
         # if a sum mt does not exist, nothing happens
 
-        mt_103 = list(range(600, 650))
-        mt_104 = list(range(650, 700))
-        mt_105 = list(range(700, 750))
-        mt_106 = list(range(750, 800))
-        mt_107 = list(range(800, 850))
-        mt_101 = [102, *mt_103, *mt_104, *mt_105, *mt_106, *mt_107, 108, 109, 111, 112, 113, 114, 115, 116, 117, 155,
-                  182, 191, 192, 193, 197]
-        mt_18 = [19, 20, 21, 38]
-        mt_27 = [*mt_18, *mt_101]  # has 18 and 101 which are sums themselves
-
-        mt_16 = list(range(875, 892))
-        mt_4 = list(range(50, 92))
-        # mt_3 = [*mt_4, 5, 11, *mt_16, 17, *list(range(22, 26)), *mt_27, 28, 29, 30, 32, 33, 34, 35, 36, 37, 41, 42, 44,
-        #         45, 152, 153, 154, *list(range(156, 182)), *list(range(183, 191)), 194, 195, 196, 198, 199, 200]
-
-        # according to https://t2.lanl.gov/nis/endf/mts.html
-        mt_3 = [4, 5, 11, 16, 17, 18, *list(range(22, 27)), *list(range(28, 38)), 41, 42, *list(range(44, 46)),
-                *list(range(102, 118))]
-
-        mt_1 = [2, *mt_3]  # contains 3 which is a sum
-
         # go from highest to lowest since lower ENDF #'s are not in higher #'s, except 18 which is in 27 so do 18 first
-        sum_mts_list = [mt_107, mt_106, mt_105, mt_104, mt_103, mt_101, mt_18, mt_27, mt_16, mt_4, mt_3, mt_1]
         sum_mts = [107, 106, 105, 104, 103, 101, 18, 27, 16, 4, 3, 1]
+        sum_mts_list = [self._get_mts_in_sum(sum_mt) for sum_mt in sum_mts]
 
         for sum_mt, mts_in_sum in zip(sum_mts, sum_mts_list):
             # ensure the sum'd mt is present before trying to set it
@@ -385,6 +365,29 @@ class AceEditor:
                             self.adjusted_mts.add(sum_mt)
 
 
+    def _get_mts_in_sum(self, sum_mt):
+        """
+        Find the MTs that make up sum_mt. A sum within the sum that is not on the ace file is replaced by its parts
+
+        Parameters
+        ----------
+        sum_mt : int
+
+        Returns
+        -------
+        list
+            List of mt's in the sum
+
+        """
+        mts = []
+        for mt in SUM_RULES[sum_mt]:
+            if mt in SUM_RULES and mt not in self.all_mts:
+                mts.extend(self._get_mts_in_sum(mt))
+            else:
+                mts.append(mt)
+
+        return mts
+
     def _check_if_mts_present(self, mt_list, compare_to=None):
         """
         Find what elements of mt_list are in self.all_mts
-- 
2.43.0


From 74168b313a135013aee6383367f89c6175609601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 010/104] fix: make the cdf of a perturbed fission spectrum the
 integral of its pdf

Each bin was integrated with the pdf at its upper end, whatever the
interpolation of the table, so that neither the cdf nor the normalisation
matched the pdf that was set.
---
 ASAPy/AceIO.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 37ead8a..0465695 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -171,11 +171,14 @@ class AceEditor:
 
             for idx, distro in enumerate(fission_chi_prompt.energy_out):
                 delta_pdf = pdf[idx] - distro.p
-                # get group deltas, knowing the first group should be 0 e which will also
-                # force the first level to be zero which by pdf definition is must
+                # integrate the deltas over each bin according to the interpolation of the table, knowing that the
+                # first level must be zero
                 delta_e = np.diff(distro.x)
-                delta_e = np.insert(delta_e, 0, 0)
-                delta_cdf = delta_pdf * delta_e
+                if distro.interpolation == 'histogram':
+                    delta_cdf = delta_pdf[:-1] * delta_e
+                else:
+                    delta_cdf = 0.5 * (delta_pdf[1:] + delta_pdf[:-1]) * delta_e
+                delta_cdf = np.insert(delta_cdf, 0, 0)
                 # sum up the cdf deltas until the cdf point, inclusive
                 delta_cdf_sum = [sum(delta_cdf[0:i + 1]) for i in range(len(delta_cdf))]
 
-- 
2.43.0


From 052898e2d2180b131e9d60e40ab020e1b8ae76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 011/104] fix: check the shape of a fission spectrum for every
 incident energy

Only the first one was checked, a wrong length further on was broadcast or
failed after part of the spectrum was already changed.
---
 ASAPy/AceIO.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 0465695..2d9c5e0 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -165,9 +165,10 @@ class AceEditor:
                 raise Exception("Number of out energies in pdf {0} not the same as ace {1}".format(
                     len(pdf), len(fission_chi_prompt.energy_out)))
 
-            if len(fission_chi_prompt.energy_out[0]) != len(pdf[0]):
-                raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
-                    len(pdf[0]), len(fission_chi_prompt.energy_out[0])))
+            for idx, distro in enumerate(fission_chi_prompt.energy_out):
+                if len(distro) != len(pdf[idx]):
+                    raise Exception("Number of bins in out energy in pdf {0} not the same as ace {1}".format(
+                        len(pdf[idx]), len(distro)))
 
             for idx, distro in enumerate(fission_chi_prompt.energy_out):
                 delta_pdf = pdf[idx] - distro.p
-- 
2.43.0


From 5e1b14102bb01bed35146febf93f0020e792de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 012/104] fix: keep all comment lines of a new type ACE header

The header was assumed to have three comment lines, with any other number
the pointer arrays were taken for data or data for header.
---
 ASAPy/AceIO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 2d9c5e0..3b12ea5 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -434,8 +434,10 @@ class WriteAce:
         with open(ace_path, 'r') as f:
             lines = f.readlines()
 
-        # new type header: 2.0.0. (decimal in 2nd place of first word)
-        number_of_header_lines = [15 if lines[0].split()[0][1] == '.' else 12][0]
+        # new type header: 2.0.0. (decimal in 2nd place of first word), gives the number of comment lines it adds
+        number_of_header_lines = 12
+        if lines[0].split()[0][1] == '.':
+            number_of_header_lines += int(lines[1].split()[3])
 
         header_lines = lines[0:number_of_header_lines]
 
-- 
2.43.0


From 62f48bc7731ca4105669b2d63f80260fd27e84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:49 +0000
Subject: [PATCH 013/104] fix: do not end a rewritten ACE file with an empty
 line

When the number of values is a multiple of four the last line is already
ended.
---
 ASAPy/AceIO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 3b12ea5..5bbe65e 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -515,7 +515,7 @@ class WriteAce:
                     values_printed_coutner = 0
 
             # ensure a new line at EOF
-            if values_printed_coutner < 4:
+            if 0 < values_printed_coutner < 4:
                 f.write('\n')
 
 if __name__ == "__main__":
-- 
2.43.0


From 1c2cad429bfc9058ff62462ac20cb4e054fa6d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:08 +0000
Subject: [PATCH 014/104] fix: find arrays with very small values when
 rewriting an ACE file

NJOY writes values with a three digit exponent without the E, such an array
was never found and the sampled values were silently not written.
---
 ASAPy/AceIO.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 5bbe65e..4f43583 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -450,6 +450,9 @@ class WriteAce:
 
         single_line = re.sub(' +', ' ', single_line)
 
+        # values with a three digit exponent are written without the E (1.0-120), add it so that they can be found
+        single_line = re.sub(r'(\d)([+-]\d{3})(?!\S)', r'\1E\2', single_line)
+
         return single_line, header_lines
 
     def format_mcnp(self, array, formatting='.11E'):
-- 
2.43.0


From d0ee02079f1327b793e777fdd1ff9bdb013cba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:08 +0000
Subject: [PATCH 015/104] fix: only replace whole values in an ACE file

The text of an array was also found inside other values, e.g. within a
negative value (1.0 in -1.0) or a longer exponent, and replaced there.
---
 ASAPy/AceIO.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ASAPy/AceIO.py b/ASAPy/AceIO.py
index 4f43583..fa44430 100644
--- a/ASAPy/AceIO.py
+++ b/ASAPy/AceIO.py
@@ -489,16 +489,13 @@ class WriteAce:
 
         original_str_line = self.format_mcnp(array)
 
-        try:
-            first_idx_of_data = self.single_line.index(original_str_line)
-        except ValueError:
+        # only match whole values, e.g. not the 1.0 within -1.0
+        original_pattern = r'(?<!\S)' + re.escape(original_str_line) + r'(?!\S)'
+        if not re.search(original_pattern, self.single_line):
             raise ValueError("Inputted string not found in the ace file.")
 
-        last_idx_of_data = first_idx_of_data + len(original_str_line)
-
         replace_with_line = self.format_mcnp(replace_with)
-        self.single_line = self.single_line.replace(self.single_line[first_idx_of_data: last_idx_of_data],
-                                                    replace_with_line, max_replaces)
+        self.single_line = re.sub(original_pattern, replace_with_line, self.single_line, count=max_replaces)
 
     def write_ace(self, ace_path_to_write):
 
-- 
2.43.0


From 7c46d372c3b2e13dec63110f74e7ee970ddd40be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:00 +0000
Subject: [PATCH 016/104] fix: feed PURR and ACER from the PENDF tape

After ERRORR the last tape number is a covariance or plot tape, which PURR
and ACER then took as their PENDF input. Without BROADR the later modules
referred to a tape that was never defined (NameError).
---
 ASAPy/njoy.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 2ad08be..d9a8b52 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -502,12 +502,14 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
     # reconr
     commands += _TEMPLATE_RECONR
     nlast = npendf
+    npendf_last = npendf  # the PENDF tape to use by the following modules
 
     # broadr
     if broadr:
         nbroadr = nlast + 1
         commands += _TEMPLATE_BROADR
         nlast = nbroadr
+        npendf_last = nbroadr
 
     if errorr:
         if cov_energy_groups is None:
@@ -531,7 +533,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
 
         fname = "{}_{}"
         for i, temperature in enumerate(temperatures):
-            ngroupr_in = nbroadr
+            ngroupr_in = npendf_last
             ngroupr_out = nlast + 1
             nlast += 1
 
@@ -570,7 +572,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
 
         if nu or chi:
             commands += "\n-- Nu-bar / Chi groupr\n"
-            ngroupr_in = nbroadr  # PENDF tape
+            ngroupr_in = npendf_last  # PENDF tape
             ngroupr_out = nlast + 1
             s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp)
             commands += s.format(**locals())
@@ -578,7 +580,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             nlast += 1
 
         if nu:
-            nerr_in = nbroadr  # PENDF tape
+            nerr_in = npendf_last  # PENDF tape
             nerr = nlast + 1
             commands += _TEMPLATE_ERRORR_31.format(**locals())
             if iwt_fluxweight == 1:
@@ -603,7 +605,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
 
         if chi:
             commands += "-- Chi info\n"
-            nerr_in = nbroadr  # PENDF tape
+            nerr_in = npendf_last  # PENDF tape
             nerr = nlast + 1
             commands += _TEMPLATE_ERRORR_35.format(**locals())
             if iwt_fluxweight == 1:
@@ -629,27 +631,29 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
 
     # heatr
     if heatr:
-        nheatr_in = nbroadr
+        nheatr_in = npendf_last
         nheatr = nlast + 1
         commands += _TEMPLATE_HEATR
         nlast = nheatr
+        npendf_last = nheatr
 
     # purr
     if purr:
-        npurr_in = nlast
-        npurr = npurr_in + 1
+        npurr_in = npendf_last
+        npurr = nlast + 1
         commands += _TEMPLATE_PURR
         nlast = npurr
+        npendf_last = npurr
 
     commands = commands.format(**locals())
 
     # acer
     if acer:
-        nacer_in = nlast
+        nacer_in = npendf_last
         fname = '{}_{:.1f}'
         for i, temperature in enumerate(temperatures):
             # Extend input with an ACER run for each temperature
-            nace = nacer_in + 1 + 2*i
+            nace = nlast + 1 + 2*i
             ndir = nace + 1
             ext = '{:02}'.format(i + 1)
             commands += _TEMPLATE_ACER.format(**locals())
-- 
2.43.0


From 0954bc63093abe205eb532cbd77ae89788a0a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:00 +0000
Subject: [PATCH 017/104] fix: let make_njoy_run run NJOY

The run option hid the run function, so that run=True raised a TypeError,
and the resulting ACE and xsdir files were left empty.
---
 ASAPy/njoy.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index d9a8b52..3c1f36a 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -393,6 +393,10 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
                 shutil.move(tmpfilename, filename)
 
 
+# make_njoy_run has an option of the same name
+_run_njoy = run
+
+
 def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """Generate ACE file from an ENDF file
 
@@ -663,7 +667,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             tapeout[ndir] = fname.format(xsdir, temperature)
     commands += 'stop\n'
     if run:
-        run(commands, tapein, tapeout, **kwargs)
+        _run_njoy(commands, tapein, tapeout, **kwargs)
     else:
         with open('njoy_in.txt', 'w') as f:
             f.write(commands)
@@ -681,6 +685,10 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
                         mass_first_digit = int(text[3])
                         if mass_first_digit <= 2:
                             text = text[:3] + str(mass_first_digit + 4) + text[4:]
+
+                    # Concatenate into destination ACE and xsdir files
+                    ace_file.write(text)
+                    xsdir_file.write(open(fname.format(xsdir, temperature), 'r').read())
         else:
             # see if the user should know to edit the acer file later
             if ev.target['isomeric_state'] > 0:
-- 
2.43.0


From 803c7dc633d4ea8d91b95986492fafe4a3801b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:00 +0000
Subject: [PATCH 018/104] fix: make make_pendf produce a PENDF file

It always raised because covariance processing is on by default and needs a
group structure, and it did not run NJOY.
---
 ASAPy/njoy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 3c1f36a..d911283 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -419,7 +419,7 @@ def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
     """
 
     make_njoy_run(filename, pendf=pendf, error=error, broadr=False,
-                  heatr=False, purr=False, acer=False, stdout=stdout)
+                  heatr=False, purr=False, acer=False, errorr=False, run=True, stdout=stdout)
 
 
 def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
-- 
2.43.0


From 4457359dd1296f6c7a31b614453d085289cd6a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 019/104] fix: read all materials of an ENDF tape

The evaluation closed the file it was given, get_evaluations then failed
after the first material.
---
 ASAPy/endf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/endf.py b/ASAPy/endf.py
index 042051a..7ed9ddc 100644
--- a/ASAPy/endf.py
+++ b/ASAPy/endf.py
@@ -366,7 +366,9 @@ class Evaluation(object):
 
         self._read_header()
 
-        fh.close()
+        # leave a given file open, it might have more materials on it
+        if fh is not filename_or_obj:
+            fh.close()
 
     def _read_header(self):
         file_obj = io.StringIO(self.section[1, 451])
-- 
2.43.0


From cd3eca6c50141f2bb04cbad5bc91d39ac2914234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 020/104] fix: put every element of an INTG record in its own
 column

All elements of a line were written to the first column of the line.
---
 ASAPy/data/endf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 0e56c1a..752f39d 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -324,9 +324,9 @@ def get_intg_record(file_obj):
                 break
             element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
             if element > 0:
-                corr[ii, jj] = (element+0.5)/factor
+                corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-                corr[ii, jj] = (element-0.5)/factor
+                corr[ii, jj+j] = (element-0.5)/factor
 
     # Symmetrize the correlation matrix
     corr = corr + corr.T - np.diag(corr.diagonal())
-- 
2.43.0


From b4ee2fdfca65954c49922b8982a16a0e37420a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 021/104] fix: do not truncate tabulated values at integer
 arguments

The result array took the integer type of the arguments.
---
 ASAPy/data/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 907c283..0e641dd 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -155,7 +155,7 @@ class Tabulated1D(Function1D):
         # Check if input is array or scalar
         if isinstance(x, Iterable):
             iterable = True
-            x = np.array(x)
+            x = np.array(x, dtype=float)
         else:
             iterable = False
             x = np.array([x], dtype=float)
-- 
2.43.0


From a0ab8b58b0a3d9e85e0b60a28b372a3b764b3f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 022/104] fix: integrate linear-log regions of tabulated
 functions

The constant part was not multiplied with the width of the bin.
---
 ASAPy/data/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 0e641dd..6baca7f 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -295,7 +295,7 @@ class Tabulated1D(Function1D):
                 # Linear-log
                 logx = np.log(x1/x0)
                 m = (y1 - y0)/logx
-                partial_sum[i_low:i_high] = y0 + m*(x1*(logx - 1) + x0)
+                partial_sum[i_low:i_high] = y0*(x1 - x0) + m*(x1*(logx - 1) + x0)
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-- 
2.43.0


From 3db205257767e6d885659128506193c380da43a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 023/104] fix: integrate constant log-linear and 1/x log-log
 regions

Both are the limit 0/0 of the general expressions and gave NaN.
---
 ASAPy/data/function.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 6baca7f..142bd73 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -300,13 +300,17 @@ class Tabulated1D(Function1D):
             elif self.interpolation[k] == 4:
                 # Log-linear
                 m = np.log(y1/y0)/(x1 - x0)
-                partial_sum[i_low:i_high] = y0/m*(np.exp(m*(x1 - x0)) - 1)
+                with np.errstate(divide='ignore', invalid='ignore'):
+                    partial_sum[i_low:i_high] = np.where(
+                        m == 0, y0*(x1 - x0), y0/m*(np.exp(m*(x1 - x0)) - 1))
 
             elif self.interpolation[k] == 5:
                 # Log-log
                 m = np.log(y1/y0)/np.log(x1/x0)
-                partial_sum[i_low:i_high] = y0/((m + 1)*x0**m)*(
-                    x1**(m + 1) - x0**(m + 1))
+                with np.errstate(divide='ignore', invalid='ignore'):
+                    partial_sum[i_low:i_high] = np.where(
+                        np.isclose(m, -1, rtol=0, atol=1e-12), y0*x0*np.log(x1/x0),
+                        y0/((m + 1)*x0**m)*(x1**(m + 1) - x0**(m + 1)))
 
             i_low = i_high
 
-- 
2.43.0


From 91c0458f2f0a282dbe5b1ea4a9ee8073a0bbeae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 024/104] fix: read ACE files with several tables

The number of bytes to read was estimated from the first data line and
corrected with a relative seek, which text files do not support. Count the
lines instead.
---
 ASAPy/data/ace.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index b1f2b09..d17a0f7 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -15,7 +15,6 @@ generates ACE-format cross sections.
 
 """
 
-from os import SEEK_CUR
 from pathlib import PurePath
 import struct
 import sys
@@ -378,7 +377,6 @@ class Library(EqualityMixin):
             nxs = np.fromstring(datastr, sep=' ', dtype=int)
 
             n_lines = (nxs[1] + 3)//4
-            n_bytes = len(lines[-1]) * (n_lines - 2) + 1
 
             # Ensure that we have more tables to read in
             if (table_names is not None) and (table_names < tables_seen):
@@ -387,17 +385,13 @@ class Library(EqualityMixin):
 
             # verify that we are suppossed to read this table in
             if (table_names is not None) and (name not in table_names):
-                ace_file.seek(n_bytes, SEEK_CUR)
-                ace_file.readline()
+                for i in range(n_lines - 1):
+                    ace_file.readline()
                 lines = [ace_file.readline() for i in range(13)]
                 continue
 
-            # read and fix over-shoot
-            lines += ace_file.readlines(n_bytes)
-            if 12 + n_lines < len(lines):
-                goback = sum([len(line) for line in lines[12+n_lines:]])
-                lines = lines[:12+n_lines]
-                ace_file.seek(-goback, SEEK_CUR)
+            # the first data line has been read already
+            lines += [ace_file.readline() for i in range(n_lines - 1)]
 
             if verbose:
                 kelvin = round(temperature * 1e6 / 8.617342e-5)
-- 
2.43.0


From db487d3c479fa9f300d185641fdeceb8fb781d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 025/104] fix: read data sets with current h5py and numpy

Dataset.value was removed in h5py 3 and numpy.bool in numpy 1.24, so no
HDF5 file could be imported.
---
 ASAPy/data/angle_distribution.py  |  2 +-
 ASAPy/data/correlated.py          |  6 +++---
 ASAPy/data/energy_distribution.py |  2 +-
 ASAPy/data/function.py            |  6 +++---
 ASAPy/data/kalbach_mann.py        |  2 +-
 ASAPy/data/multipole.py           | 16 ++++++++--------
 ASAPy/data/neutron.py             |  4 ++--
 ASAPy/data/photon.py              | 14 +++++++-------
 ASAPy/data/reaction.py            |  2 +-
 ASAPy/data/thermal.py             | 12 ++++++------
 ASAPy/data/urr.py                 |  4 ++--
 11 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/ASAPy/data/angle_distribution.py b/ASAPy/data/angle_distribution.py
index e523f91..42df7c5 100644
--- a/ASAPy/data/angle_distribution.py
+++ b/ASAPy/data/angle_distribution.py
@@ -115,7 +115,7 @@ class AngleDistribution(EqualityMixin):
             Angular distribution
 
         """
-        energy = group['energy'].value
+        energy = group['energy'][()]
         data = group['mu']
         offsets = data.attrs['offsets']
         interpolation = data.attrs['interpolation']
diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5d76ee8..5b2d145 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -210,15 +210,15 @@ class CorrelatedAngleEnergy(AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         offsets = group['energy_out'].attrs['offsets']
         interpolation = group['energy_out'].attrs['interpolation']
         n_discrete_lines = group['energy_out'].attrs['n_discrete_lines']
-        dset_eout = group['energy_out'].value
+        dset_eout = group['energy_out'][()]
         energy_out = []
 
-        dset_mu = group['mu'].value
+        dset_mu = group['mu'][()]
         mu = []
 
         n_energy = len(energy)
diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index f92e440..0243aab 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -1144,7 +1144,7 @@ class ContinuousTabular(EnergyDistribution):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 142bd73..3a78d8b 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -352,8 +352,8 @@ class Tabulated1D(Function1D):
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
 
-        x = dataset.value[0, :]
-        y = dataset.value[1, :]
+        x = dataset[()][0, :]
+        y = dataset[()][1, :]
         breakpoints = dataset.attrs['breakpoints']
         interpolation = dataset.attrs['interpolation']
         return cls(x, y, breakpoints, interpolation)
@@ -437,7 +437,7 @@ class Polynomial(np.polynomial.Polynomial, Function1D):
         if dataset.attrs['type'].decode() != cls.__name__:
             raise ValueError("Expected an HDF5 attribute 'type' equal to '"
                              + cls.__name__ + "'")
-        return cls(dataset.value)
+        return cls(dataset[()])
 
 
 class Combination(EqualityMixin):
diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 8f9b77e..06e7925 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -203,7 +203,7 @@ class KalbachMann(angle_energy.AngleEnergy):
         interp_data = group['energy'].attrs['interpolation']
         energy_breakpoints = interp_data[0, :]
         energy_interpolation = interp_data[1, :]
-        energy = group['energy'].value
+        energy = group['energy'][()]
 
         data = group['distribution']
         offsets = data.attrs['offsets']
diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 01ad229..e97605c 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -356,24 +356,24 @@ class WindowedMultipole(EqualityMixin):
 
         # Read scalars.
 
-        out.spacing = group['spacing'].value
-        out.sqrtAWR = group['sqrtAWR'].value
-        out.E_min = group['E_min'].value
-        out.E_max = group['E_max'].value
+        out.spacing = group['spacing'][()]
+        out.sqrtAWR = group['sqrtAWR'][()]
+        out.E_min = group['E_min'][()]
+        out.E_max = group['E_max'][()]
 
         # Read arrays.
 
         err = "WMP '{}' array shape is not consistent with the '{}' array shape"
 
-        out.data = group['data'].value
+        out.data = group['data'][()]
 
-        out.windows = group['windows'].value
+        out.windows = group['windows'][()]
 
-        out.broaden_poly = group['broaden_poly'].value.astype(np.bool)
+        out.broaden_poly = group['broaden_poly'][()].astype(bool)
         if out.broaden_poly.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('broaden_poly', 'windows'))
 
-        out.curvefit = group['curvefit'].value
+        out.curvefit = group['curvefit'][()]
         if out.curvefit.shape[0] != out.windows.shape[0]:
             raise ValueError(err.format('curvefit', 'windows'))
 
diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index cff3c8f..ef64008 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -518,7 +518,7 @@ class IncidentNeutron(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
 
         data = cls(name, atomic_number, mass_number, metastable,
                    atomic_weight_ratio, kTs)
@@ -526,7 +526,7 @@ class IncidentNeutron(EqualityMixin):
         # Read energy grid
         e_group = group['energy']
         for temperature, dset in e_group.items():
-            data.energy[temperature] = dset.value
+            data.energy[temperature] = dset[()]
 
         # Read reaction data
         rxs_group = group['reactions']
diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 44d8ca4..2596d8a 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -560,12 +560,12 @@ class IncidentPhoton(EqualityMixin):
         if not _COMPTON_PROFILES:
             filename = os.path.join(os.path.dirname(__file__), 'compton_profiles.h5')
             with h5py.File(filename, 'r') as f:
-                _COMPTON_PROFILES['pz'] = f['pz'].value
+                _COMPTON_PROFILES['pz'] = f['pz'][()]
                 for i in range(1, 101):
                     group = f['{:03}'.format(i)]
-                    num_electrons = group['num_electrons'].value
-                    binding_energy = group['binding_energy'].value*EV_PER_MEV
-                    J = group['J'].value
+                    num_electrons = group['num_electrons'][()]
+                    binding_energy = group['binding_energy'][()]*EV_PER_MEV
+                    J = group['J'][()]
                     _COMPTON_PROFILES[i] = {'num_electrons': num_electrons,
                                             'binding_energy': binding_energy,
                                             'J': J}
@@ -582,15 +582,15 @@ class IncidentPhoton(EqualityMixin):
             filename = os.path.join(os.path.dirname(__file__), 'stopping_powers.h5')
             with h5py.File(filename, 'r') as f:
                 # Units are in MeV; convert to eV
-                _STOPPING_POWERS['energy'] = f['energy'].value*EV_PER_MEV
+                _STOPPING_POWERS['energy'] = f['energy'][()]*EV_PER_MEV
                 for i in range(1, 99):
                     group = f['{:03}'.format(i)]
 
                     # Units are in MeV cm^2/g; convert to eV cm^2/g
                     _STOPPING_POWERS[i] = {
                         'I': group.attrs['I'],
-                        's_collision': group['s_collision'].value*EV_PER_MEV,
-                        's_radiative': group['s_radiative'].value*EV_PER_MEV
+                        's_collision': group['s_collision'][()]*EV_PER_MEV,
+                        's_radiative': group['s_radiative'][()]*EV_PER_MEV
                     }
 
         # Add stopping power data
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index bfc2598..269f571 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -936,7 +936,7 @@ class Reaction(EqualityMixin):
                             'Could not create reaction cross section for MT={} '
                             'at T={} because no corresponding energy grid '
                             'exists.'.format(mt, T))
-                    xs = Tgroup['xs'].value
+                    xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
                     tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
                     tabulated_xs._threshold_idx = threshold_idx
diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 2022a25..7141212 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -196,8 +196,8 @@ class CoherentElastic(EqualityMixin):
             Coherent elastic scattering cross section
 
         """
-        bragg_edges = dataset.value[0, :]
-        factors = dataset.value[1, :]
+        bragg_edges = dataset[()][0, :]
+        factors = dataset[()][1, :]
         return cls(bragg_edges, factors)
 
 
@@ -410,7 +410,7 @@ class ThermalScattering(EqualityMixin):
         kTg = group['kTs']
         kTs = []
         for temp in kTg:
-            kTs.append(kTg[temp].value)
+            kTs.append(kTg[temp][()])
         temperatures = [str(int(round(kT / K_BOLTZMANN))) + "K" for kT in kTs]
 
         table = cls(name, atomic_weight_ratio, kTs)
@@ -434,7 +434,7 @@ class ThermalScattering(EqualityMixin):
 
                 # Angular distribution
                 if 'mu_out' in elastic_group:
-                    table.elastic_mu_out[T] = elastic_group['mu_out'].value
+                    table.elastic_mu_out[T] = elastic_group['mu_out'][()]
 
             # Read thermal inelastic scattering
             if 'inelastic' in Tgroup:
@@ -442,8 +442,8 @@ class ThermalScattering(EqualityMixin):
                 table.inelastic_xs[T] = Tabulated1D.from_hdf5(
                     inelastic_group['xs'])
                 if table.secondary_mode in ('equal', 'skewed'):
-                    table.inelastic_e_out[T] = inelastic_group['energy_out'].value
-                    table.inelastic_mu_out[T] = inelastic_group['mu_out'].value
+                    table.inelastic_e_out[T] = inelastic_group['energy_out'][()]
+                    table.inelastic_mu_out[T] = inelastic_group['mu_out'][()]
                 elif table.secondary_mode == 'continuous':
                     table.inelastic_dist[T] = AngleEnergy.from_hdf5(
                         inelastic_group)
diff --git a/ASAPy/data/urr.py b/ASAPy/data/urr.py
index b6b4c48..20001aa 100644
--- a/ASAPy/data/urr.py
+++ b/ASAPy/data/urr.py
@@ -166,8 +166,8 @@ class ProbabilityTables(EqualityMixin):
         absorption_flag = group.attrs['absorption']
         multiply_smooth = bool(group.attrs['multiply_smooth'])
 
-        energy = group['energy'].value
-        table = group['table'].value
+        energy = group['energy'][()]
+        table = group['table'][()]
 
         return cls(energy, table, interpolation, inelastic_flag,
                    absorption_flag, multiply_smooth)
-- 
2.43.0


From 570822ea00eb60ecab2f5bc2dd1a02a1a962bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 026/104] fix: import os and argparse for the functions that
 use them

They were only imported when run as a program, the module's functions
failed with a NameError.
---
 ASAPy/XsecSampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 8635a78..aaf1622 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -1,3 +1,6 @@
+import argparse
+import os
+
 import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
@@ -826,9 +829,6 @@ def create_argparser():
     return parser
 
 if __name__ == "__main__":
-    import os
-    import argparse
-
     parser = create_argparser()
     args = parser.parse_args()
 
-- 
2.43.0


From 1b1e59ad2e60d8151298e1219cb45c129c466b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:11 +0000
Subject: [PATCH 027/104] fix: do not sample groups that have no cross section

A group with a zero cross section (below a threshold) was stored with a
standard deviation of 1e-7, so normal sampling around zero made half of all
samples negative, and they were all removed.
---
 ASAPy/EndfToCov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index dfbef89..b4aab49 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -387,9 +387,9 @@ def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}
         df['s.d.(1)'] = std_dev
         df['s.d(2)'] = std_dev
         # set all NaN's (which presumably had 0 xsec) to sensible values for future sampling
-        # values set to 1.0 \pm 1e-15 so that the point can be sampled and it won't change off of 1.0
+        # without a standard deviation they are not sampled, else half of all samples would be negative
         df.loc[df['rel.s.d.(1)'].isna(), ('x-sec(1)', 'x-sec(2)')] = 0.0
-        df.loc[df['rel.s.d.(1)'].isna(), ('s.d.(1)', 's.d(2)')] = 1e-7
+        df.loc[df['rel.s.d.(1)'].isna(), ('s.d.(1)', 's.d(2)')] = 0.0
         df.loc[df['rel.s.d.(1)'].isna(), ('rel.s.d.(1)', 'rel.s.d(2)')] = 1e-7
 
         AsapyCovStorage.add_stddev_to_store(h, df, zaid, mt, zaid, mt)
-- 
2.43.0


From 34486d53dce391d2c04422f14d9cd6da949074ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:14 +0000
Subject: [PATCH 028/104] fix: sample reactions that lost different numbers of
 negative samples

---
 ASAPy/XsecSampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index aaf1622..f23077e 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -736,6 +736,10 @@ def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter=
 
     # sample_df contains relative values (sampled / mean) which are then multiplied by the actual continuous xsec and written to an ace file
 
+    # removing negative samples may leave some mts with fewer samples, only use the samples which all mts have
+    num_samples = min(sample_df_rel.shape[1] for sample_df_rel in sample_dfs_rel)
+    sample_dfs_rel = [sample_df_rel.iloc[:, :num_samples].copy() for sample_df_rel in sample_dfs_rel]
+
     # iter over # of samples, each processor does 1 whole ace file no matter how many mts were sampled
     for sample_number, _ in sample_dfs_rel[0].items():
         if sample_number % size != rank: continue
-- 
2.43.0


From 66994dca909233128eff346ef530e397633dc35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:05 +0000
Subject: [PATCH 029/104] fix: draw a single sample

---
 ASAPy/CovManipulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 61cd099..8d1331c 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -23,7 +23,10 @@ def col_independent_matrix(n, d):
     """
     x = np.arange(1, (n+1))
     p = sp.stats.norm.ppf(x/(n+1))
-    p = (p - p.mean()) / p.std()
+    p = p - p.mean()
+    # a single sample has no spread to normalize with
+    if n > 1:
+        p = p / p.std()
     score = np.zeros((n, d))
     for j in range(0, score.shape[1]):
         score[:, j] = np.random.permutation(p)
-- 
2.43.0


From 608f633ade4925108373c5841753aa2485507dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:49 +0000
Subject: [PATCH 030/104] fix: do not lose groups with a zero mean from
 relative samples

---
 ASAPy/XsecSampler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index f23077e..460e693 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -196,9 +196,14 @@ class XsecSampler:
         """
         sample_df = samples / mean
         sample_df = pd.DataFrame(sample_df.T, index=range(1, len(mean) + 1))
+        has_neg = (sample_df < 0).sum() > 0
+
+        # the relative value of a group with a 0 mean is not defined (0/0 or x/0), there is nothing to scale so leave
+        # that group as it is
+        sample_df.loc[mean == 0] = 1.0
 
         if remove_neg:
-            sample_df = sample_df.loc[:, ((sample_df < 0).sum() == 0)].dropna()
+            sample_df = sample_df.loc[:, ~has_neg].dropna()
 
         return sample_df
 
@@ -385,10 +390,6 @@ def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', r
 
     sample_df = xsec._sample_check(sample_df_full_vals.T, mean, remove_neg=False)
 
-    # the relative value of a group with a 0 mean is not defined (0/0 or x/0), there is nothing to scale so leave
-    # that group as it is
-    sample_df.loc[mean == 0] = 1.0
-
     return sample_df, sample_df_full_vals
 
 def get_mt_from_ace(ace_file, mt):
-- 
2.43.0


From f18dd96e72c2396fe67e21c61786c069ed24dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:52 +0000
Subject: [PATCH 031/104] fix: load reactions without any correlation data

A reaction whose correlation matrix is all zeros is meant to have no data, but
loading it divided by zero and then failed in the eigenvalue decomposition.
---
 ASAPy/XsecSampler.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 460e693..46b1a7d 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -84,8 +84,9 @@ class XsecSampler:
         # ensure diagonals and matrix normalized to 1.0 + have 1.0 on the diag
         if fill_corr_diag:
             np.fill_diagonal(corr_df.values, max(np.diag(corr_df.values)))  # boxer format used 1000 as 1.0 for correlations
-        corr_df = corr_df / max(np.diag(corr_df.values))
-
+        # if there is no correlation data at all there is nothing to normalize
+        if max(np.diag(corr_df.values)) > 0:
+            corr_df = corr_df / max(np.diag(corr_df.values))
 
         # make sure e low and e high are in the correct order
         # todo: fix: this is a dumb workaround for my parsed scale cov which flipped e high and e low keys
@@ -229,6 +230,10 @@ class XsecSampler:
         diag_non_zero = np.diag(corr_matrix) > 0
         corr_matrix_copy = corr_matrix[diag_non_zero, :][:, diag_non_zero]
 
+        if not np.any(diag_non_zero):
+            # no correlation data, nothing to fix
+            return corr_matrix_copy, diag_non_zero
+
         eigs, P = LA.eigh(corr_matrix_copy)
         if min(eigs) <= 1e-8:
             # replace all negative and zero eigs with a small eps
-- 
2.43.0


From aea7453249c55dd7fc536e2c8bce9ae2a4e05783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:19 +0000
Subject: [PATCH 032/104] fix: skip reactions without a name that have no
 converted covariance

The lumped reactions MT=851-870 have no name, and the message about skipping one
of them raised a KeyError instead of skipping it.
---
 ASAPy/EndfToCov.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/EndfToCov.py b/ASAPy/EndfToCov.py
index b4aab49..12d6dd6 100644
--- a/ASAPy/EndfToCov.py
+++ b/ASAPy/EndfToCov.py
@@ -350,11 +350,13 @@ def run_cover_chain(endf_file, mts, temperatures, output_dir='./', cov_energy_gr
 def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}_matrix.txt',
                       output_h5_format='u235_102_{0}g_cov.h5'):
 
+    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f"REACTION NAME NOT FOUND: {mt}"
+
     try:
         rbo = read_boxer_out_matrix(os.path.join(output_dir, boxer_matrix_name.format(mt=mt)))
         group_bounds, xsec, std_dev, cov = rbo.get_block_data()
     except RuntimeError as e:
-        print(f"Skipping zaid/mt {zaid}/{mt} {REACTION_NAME[mt]} in due to boxer output errors: {e}")
+        print(f"Skipping zaid/mt {zaid}/{mt} {rxn} in due to boxer output errors: {e}")
         return
 
     groups = cov.shape[0]
@@ -362,7 +364,6 @@ def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}
 
     # covert the cov read to corr
     corr = CovManipulation.cov_to_correlation(cov)
-    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f"REACTION NAME NOT FOUND: {mt}"
     if np.any(np.abs(corr) > 1):
         print(f"Cov matrix for zaid/mt={zaid}/{mt} {rxn} nis ill-composed. When converting to correlation matrix, |values| greater than 1.0 were found, setting these to -1/1 as needed")
 
-- 
2.43.0


From 3d6659302c4dc848d217c83758cf51a2da18b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:34 +0000
Subject: [PATCH 033/104] fix: give the user flux to the nu-bar and chi GROUPR
 run

With iwt_fluxweight=1 GROUPR expects the weight function after the group bounds.
---
 ASAPy/njoy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index d911283..61201fb 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -164,8 +164,8 @@ nu and chi /
 {cov_group_bounds}/"""
 
     if user_flux_weight:
-        # no newline needed since the next part has a new line to start with
-        s += user_flux_weight + "/"
+        # no newline needed at the end since the next part has a new line to start with
+        s += "\n" + user_flux_weight + "/"
 
     for i in range(num_temp):
         s += """
@@ -578,7 +578,7 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
             commands += "\n-- Nu-bar / Chi groupr\n"
             ngroupr_in = npendf_last  # PENDF tape
             ngroupr_out = nlast + 1
-            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp)
+            s = _TEMPLATE_GROUPR_FOR_PLOT(num_temp, user_flux_weight if iwt_fluxweight == 1 else None)
             commands += s.format(**locals())
 
             nlast += 1
-- 
2.43.0


From 7c863f22dfcf30b861afb2b4a28215046aa628c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:31 +0000
Subject: [PATCH 034/104] fix: refuse the analytic flux weighting that needs
 parameters

GROUPR and ERRORR read four more values for iwt=4. The deck never had them, so
NJOY read the reaction list as flux parameters.
---
 ASAPy/njoy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 61201fb..31fd7f9 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -519,6 +519,10 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
         if cov_energy_groups is None:
             raise Exception("Please provide a cov_energy_groups input.")
 
+        if iwt_fluxweight == 4:
+            # NJOY would take the following cards as the parameters of this weight function
+            raise Exception("iwt_fluxweight=4 needs thermal and fission break energies and temperatures, which cannot be given")
+
         cov_ngroups = len(cov_energy_groups) - 1
 
         if iwt_fluxweight == 1:
-- 
2.43.0


From 715a76fd4a38589649ffceeca201190dd55e7d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:17 +0000
Subject: [PATCH 035/104] fix: read a last ACE value written without an
 exponent letter

---
 ASAPy/data/ace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index d17a0f7..6b73f90 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -412,7 +412,10 @@ class Library(EqualityMixin):
             # 1.0-120 is encountered, np.fromstring won't capture any numbers
             # after it). If it's too short, then we apply the ENDF float regular
             # expression. We don't do this by default because it's expensive!
-            if xss.size != nxs[1] + 1:
+            # If only the last number is like that, the size is right but the
+            # exponent of that number is lost.
+            if (xss.size != nxs[1] + 1 or
+                    ENDF_FLOAT_RE.search(lines[11 + n_lines])):
                 datastr = ENDF_FLOAT_RE.sub(r'\1e\2', datastr)
                 xss = np.fromstring(datastr, sep=' ')
                 assert xss.size == nxs[1] + 1
-- 
2.43.0


From d433e932efbe5744d4763c3740157dca77e3b802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:17 +0000
Subject: [PATCH 036/104] fix: convert ACE values written without an exponent
 letter to binary

---
 ASAPy/data/ace.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index 6b73f90..89cb1c6 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -153,8 +153,9 @@ def ascii_to_binary(ascii_file, binary_file):
         # Read/write XSS array. Null bytes are added to form a complete record
         # at the end of the file
         n_lines = (nxs[0] + 3)//4
-        xss = list(map(float, ' '.join(lines[
-            idx + 12:idx + 12 + n_lines]).split()))
+        # very small values are written without the 'e'
+        xss = list(map(float, ENDF_FLOAT_RE.sub(r'\1e\2', ' '.join(lines[
+            idx + 12:idx + 12 + n_lines])).split()))
         extra_bytes = record_length - ((len(xss)*8 - 1) % record_length + 1)
         binary.write(struct.pack(str('={0}d{1}x'.format(nxs[0], extra_bytes)),
                                  *xss))
-- 
2.43.0


From 21b118b9bac2823d9fa14cab040685d31672f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:27 +0000
Subject: [PATCH 037/104] fix: read INTG records with six digits

---
 ASAPy/data/endf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/endf.py b/ASAPy/data/endf.py
index 752f39d..2ba0813 100644
--- a/ASAPy/data/endf.py
+++ b/ASAPy/data/endf.py
@@ -311,6 +311,8 @@ def get_intg_record(file_obj):
     nlines = int(items[4])  # Lines to read
     NROW_RULES = {2: 18, 3: 12, 4: 11, 5: 9, 6: 8}
     nrow = NROW_RULES[ndigit]
+    # eight elements of seven columns only fit without the blank column
+    first = 10 if ndigit == 6 else 11
 
     # read lines and build correlation matrix
     corr = np.identity(npar)
@@ -322,7 +324,7 @@ def get_intg_record(file_obj):
         for j in range(nrow):
             if jj+j >= ii:
                 break
-            element = _int_endf(line[11+(ndigit+1)*j:11+(ndigit+1)*(j+1)])
+            element = _int_endf(line[first+(ndigit+1)*j:first+(ndigit+1)*(j+1)])
             if element > 0:
                 corr[ii, jj+j] = (element+0.5)/factor
             elif element < 0:
-- 
2.43.0


From e305d9193f40f9540c94bac69f68cc38c941809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:03 +0000
Subject: [PATCH 038/104] fix: integrate tabulated functions with
 discontinuities

---
 ASAPy/data/function.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 3a78d8b..f908bde 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -314,6 +314,9 @@ class Tabulated1D(Function1D):
 
             i_low = i_high
 
+        # nothing is below a discontinuity
+        partial_sum[self.x[1:] == self.x[:-1]] = 0.
+
         return np.concatenate(([0.], np.cumsum(partial_sum)))
 
     def to_hdf5(self, group, name='xy'):
-- 
2.43.0


From 60f6515ef6c70be81676597f73014c82c07409b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:03 +0000
Subject: [PATCH 039/104] fix: do not truncate piecewise functions at integer
 arguments

---
 ASAPy/data/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index f908bde..4651368 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -570,7 +570,7 @@ class Regions1D(EqualityMixin):
     def __call__(self, x):
         i = np.searchsorted(self.breakpoints, x)
         if isinstance(x, Iterable):
-            ans = np.empty_like(x)
+            ans = np.empty_like(x, dtype=float)
             for j in range(len(i)):
                 ans[j] = self.functions[i[j]](x[j])
             return ans
-- 
2.43.0


From 8360130e9d73fbb4901f3337241bb9279de5ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:03 +0000
Subject: [PATCH 040/104] fix: import the resonance data used by cross sections
 with resonances

---
 ASAPy/data/function.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 4651368..568d855 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -626,6 +626,9 @@ class ResonancesWithBackground(EqualityMixin):
         self.mt = mt
 
     def __call__(self, x):
+        # imported here because it uses this module
+        from . import resonance
+
         # Get background cross section
         xs = self.background(x)
 
@@ -671,6 +674,7 @@ class ResonancesWithBackground(EqualityMixin):
 
     @resonances.setter
     def resonances(self, resonances):
+        from .resonance import Resonances
         cv.check_type('resolved resonance parameters', resonances,
                       Resonances)
         self._resonances = resonances
-- 
2.43.0


From de8bd9a263f4bda037113bccfe613d2688401f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:00 +0000
Subject: [PATCH 041/104] fix: integrate nearly constant log-linear and nearly
 1/x log-log intervals accurately

---
 ASAPy/data/function.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 568d855..2eef02f 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -299,18 +299,18 @@ class Tabulated1D(Function1D):
 
             elif self.interpolation[k] == 4:
                 # Log-linear
-                m = np.log(y1/y0)/(x1 - x0)
+                logy = np.log(y1/y0)
                 with np.errstate(divide='ignore', invalid='ignore'):
-                    partial_sum[i_low:i_high] = np.where(
-                        m == 0, y0*(x1 - x0), y0/m*(np.exp(m*(x1 - x0)) - 1))
+                    partial_sum[i_low:i_high] = y0*(x1 - x0)*np.where(
+                        logy == 0, 1., np.expm1(logy)/logy)
 
             elif self.interpolation[k] == 5:
                 # Log-log
-                m = np.log(y1/y0)/np.log(x1/x0)
+                logx = np.log(x1/x0)
+                logxy = np.log(y1/y0) + logx
                 with np.errstate(divide='ignore', invalid='ignore'):
-                    partial_sum[i_low:i_high] = np.where(
-                        np.isclose(m, -1, rtol=0, atol=1e-12), y0*x0*np.log(x1/x0),
-                        y0/((m + 1)*x0**m)*(x1**(m + 1) - x0**(m + 1)))
+                    partial_sum[i_low:i_high] = y0*x0*logx*np.where(
+                        logxy == 0, 1., np.expm1(logxy)/logxy)
 
             i_low = i_high
 
-- 
2.43.0


From 78143ba27a6e15aa70282ea31c5674b52ae2aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:39 +0000
Subject: [PATCH 042/104] fix: export data that was imported from HDF5

---
 ASAPy/data/neutron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index ef64008..0869f0b 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -454,6 +454,10 @@ class IncidentNeutron(EqualityMixin):
                 if not (photon_rx or transmutation_rx or rx.mt == 4):
                     continue
 
+                # Sums made on import are made again from their components
+                if any(isinstance(xs, Sum) for xs in rx.xs.values()):
+                    continue
+
             rx_group = rxs_group.create_group('reaction_{:03}'.format(rx.mt))
             rx.to_hdf5(rx_group)
 
-- 
2.43.0


From cbc7c770a88f8c3797a7d5faf760ecb6c2c8c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:07 +0000
Subject: [PATCH 043/104] fix: import Kalbach-Mann distributions with negative
 probabilities

---
 ASAPy/data/kalbach_mann.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index 06e7925..c94e613 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -233,7 +233,8 @@ class KalbachMann(angle_energy.AngleEnergy):
             # Create continuous distribution
             if m < n:
                 interp = INTERPOLATION_SCHEME[interpolation[i]]
-                eout_continuous = Tabular(data[0, j+m:j+n], data[1, j+m:j+n], interp)
+                eout_continuous = Tabular(data[0, j+m:j+n], data[1, j+m:j+n], interp,
+                                          ignore_negative=True)
                 eout_continuous.c = data[2, j+m:j+n]
 
             # If both continuous and discrete are present, create a mixture
-- 
2.43.0


From 60d409e6d610e8f9ba555d090557685cad149436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:07 +0000
Subject: [PATCH 044/104] fix: include partial fission in the absorption
 rebuilt on import

---
 ASAPy/data/neutron.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 0869f0b..e374221 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -545,8 +545,10 @@ class IncidentNeutron(EqualityMixin):
                     rx.derived_products.append(Product.from_hdf5(tgroup))
 
         # Build redundant reactions. Start from the highest MT number because
-        # high MTs never depend on lower MTs.
-        for mt_sum in sorted(SUM_RULES, reverse=True):
+        # high MTs never depend on lower MTs, except for MT=27 which depends on
+        # MT=18.
+        for mt_sum in sorted(SUM_RULES, key=lambda mt: 27.5 if mt == 18 else mt,
+                             reverse=True):
             if mt_sum not in data:
                 rxs = [data[mt] for mt in SUM_RULES[mt_sum] if mt in data]
                 if len(rxs) > 0:
-- 
2.43.0


From 29d2c9f0adcd4bb1602bf8c1720716fe85cc6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:07 +0000
Subject: [PATCH 045/104] fix: export correlated distributions with discrete
 lines

---
 ASAPy/data/correlated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 5b2d145..475e3d2 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -118,7 +118,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
                                                  self.interpolation))
 
         # Determine total number of (E,p) pairs and create array
-        n_tuple = sum(len(d.x) for d in self.energy_out)
+        n_tuple = sum(len(d) for d in self.energy_out)
         eout = np.empty((5, n_tuple))
 
         # Make sure all mu data is tabular
-- 
2.43.0


From f02452acc6d5264270fae7a5b3a064c1f8771578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:13 +0000
Subject: [PATCH 046/104] fix: sample all reactions of the nuclide when the
 store has several nuclides

---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 46b1a7d..3cbb754 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -906,7 +906,7 @@ if __name__ == "__main__":
         else:
             # read cov store keys for mts (/ZAID/MT/ZAID/MT)
             with pd.HDFStore(os.path.expanduser(store_name), 'r') as h:
-                mts = {int(i.split('/')[2]) for i in h}
+                mts = {int(i.split('/')[2]) for i in h if i.split('/')[1] == zaid}
                 mts = sorted(list(mts))
 
         # remove mt's not in the ACE file and print to the user (todo: log)
-- 
2.43.0


From 9229ca09153cbd68dc883d801863b7043d51671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:58 +0000
Subject: [PATCH 047/104] fix: read the metastable state of NNDC identifiers

---
 ASAPy/data/ace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ASAPy/data/ace.py b/ASAPy/data/ace.py
index 89cb1c6..7796d8e 100644
--- a/ASAPy/data/ace.py
+++ b/ASAPy/data/ace.py
@@ -82,8 +82,14 @@ def get_metadata(zaid, metastable_scheme='nndc'):
     elif metastable_scheme == 'nndc':
         metastable = 1 if mass_number > 300 else 0
 
+    hundreds = 0
     while mass_number > 3 * Z:
         mass_number -= 100
+        hundreds += 1
+
+    # A + 100*m encodes the state, an offset of 400 the first metastable one
+    if metastable_scheme == 'nndc' and 0 < hundreds < 4:
+        metastable = hundreds
 
     # Determine name
     element = ATOMIC_SYMBOL[Z]
-- 
2.43.0


From 0e86d3513be4df784fedd93ae7e9151e08456aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:58 +0000
Subject: [PATCH 048/104] fix: reject names that only start like a nuclide name

---
 ASAPy/data/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/data.py b/ASAPy/data/data.py
index 90d5903..26f0676 100644
--- a/ASAPy/data/data.py
+++ b/ASAPy/data/data.py
@@ -355,7 +355,7 @@ def zam(name):
 
     """
     try:
-        symbol, A, state = _GND_NAME_RE.match(name).groups()
+        symbol, A, state = _GND_NAME_RE.fullmatch(name).groups()
     except AttributeError:
         raise ValueError("'{}' does not appear to be a nuclide name in GND "
                          "format.".format(name))
-- 
2.43.0


From ba73c6d4d661a4fcbd6d978b8ae33e8bcc3ffc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:58 +0000
Subject: [PATCH 049/104] fix: read further temperatures with the same
 metastable convention

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index e374221..b053b41 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -233,7 +233,7 @@ class IncidentNeutron(EqualityMixin):
             cv.check_type('probability tables', value, ProbabilityTables)
         self._urr = urr
 
-    def add_temperature_from_ace(self, ace_or_filename, metastable_scheme='nndc'):
+    def add_temperature_from_ace(self, ace_or_filename, metastable_scheme='mcnp'):
         """Append data from an ACE file at a different temperature.
 
         Parameters
-- 
2.43.0


From abaad6319389c67c2f4952f35a51dfb108826323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:46 +0000
Subject: [PATCH 050/104] fix: cov_to_correlation takes the square roots of the
 variances separately, their product under- or overflows for extreme scales

---
 ASAPy/CovManipulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/CovManipulation.py b/ASAPy/CovManipulation.py
index 8d1331c..50da8b3 100644
--- a/ASAPy/CovManipulation.py
+++ b/ASAPy/CovManipulation.py
@@ -90,7 +90,8 @@ def cov_to_correlation(cov):
     corr = np.diag(np.ones(shape))
     for i in range(shape):
         for j in range(i+1, shape):
-            corr[i, j] = cov[i, j] / np.abs(cov[i, i] * cov[j, j]) ** 0.5
+            # the square roots are taken separately, the product of two variances may not be representable
+            corr[i, j] = cov[i, j] / (np.abs(cov[i, i]) ** 0.5 * np.abs(cov[j, j]) ** 0.5)
 
 
     corr = corr + corr.T - np.diag(np.diag(corr))
-- 
2.43.0


From a012157edf3ad937b2dd5044bc231368450a1b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 051/104] fix: import reactions that end below the top of the
 energy grid

---
 ASAPy/data/reaction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 269f571..d7b5b02 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -938,7 +938,9 @@ class Reaction(EqualityMixin):
                             'exists.'.format(mt, T))
                     xs = Tgroup['xs'][()]
                     threshold_idx = Tgroup['xs'].attrs['threshold_idx'] - 1
-                    tabulated_xs = Tabulated1D(energy[T][threshold_idx:], xs)
+                    # the reaction may end below the top of the energy grid
+                    tabulated_xs = Tabulated1D(
+                        energy[T][threshold_idx:threshold_idx + len(xs)], xs)
                     tabulated_xs._threshold_idx = threshold_idx
                     rx.xs[T] = tabulated_xs
 
-- 
2.43.0


From 5761ca197ec918d42350beb530de8afd8f325e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 052/104] fix: read the unknown decay mode

---
 ASAPy/data/decay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 9373c2b..13a82dd 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -59,6 +59,10 @@ def get_decay_modes(value):
         List of successive decays, e.g. ('beta-', 'neutron')
 
     """
+    if int(value) == 10:
+        # A single mode with two digits, not a sequence of modes 1 and 0
+        return [_DECAY_MODES[10][0]]
+
     return [_DECAY_MODES[int(x)][0] for x in
             str(value).strip('0').replace('.', '')]
 
-- 
2.43.0


From 5b40f5ce6467c4523eaea313c22462cd599f5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 053/104] fix: keep the covariance of a decay spectrum

---
 ASAPy/data/decay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/decay.py b/ASAPy/data/decay.py
index 13a82dd..cbb4b99 100644
--- a/ASAPy/data/decay.py
+++ b/ASAPy/data/decay.py
@@ -446,7 +446,7 @@ class Decay(EqualityMixin):
                     if LCOV != 0:
                         items, values = get_list_record(file_obj)
                         ci['covariance_lb'] = items[3]
-                        ci['covariance'] = zip(values[0::2], values[1::2])
+                        ci['covariance'] = list(zip(values[0::2], values[1::2]))
 
                     spectrum['continuous'] = ci
 
-- 
2.43.0


From 09337d0e05b419f8fdc8e2a4136e3c9dc5faae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 054/104] fix: include the zeroth Legendre coefficient of
 two-body angular distributions

---
 ASAPy/data/reaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index d7b5b02..a42fc68 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -147,7 +147,7 @@ def _get_products(ev, mt):
                 energy[i] = items[1]
                 lang = items[2]
                 if lang == 0:
-                    mu.append(Legendre(values))
+                    mu.append(Legendre([1.0] + values))
                 elif lang == 12:
                     mu.append(Tabular(values[::2], values[1::2]))
                 elif lang == 14:
-- 
2.43.0


From 51aa002ada45b0bdbf106b2e38b3f533f7d3682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 055/104] fix: read the products that follow one with tabulated
 angles

---
 ASAPy/data/reaction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index a42fc68..ce8fcd6 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -135,6 +135,12 @@ def _get_products(ev, mt):
                 p.distribution = [CorrelatedAngleEnergy.from_endf(file_obj)]
             elif lang == 2:
                 p.distribution = [KalbachMann.from_endf(file_obj)]
+            else:
+                # Tabulated angular distributions are not supported, continue
+                # after them
+                params, tab2 = get_tab2_record(file_obj)
+                for _ in range(params[5]):
+                    get_list_record(file_obj)
 
         elif law == 2:
             # Discrete two-body scattering
-- 
2.43.0


From c80248befa93ae9e7114d0aa35eec4cb66b3a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 056/104] fix: give every delayed neutron group its yield

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index ce8fcd6..7f06649 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -412,12 +412,12 @@ def _get_fission_products_endf(ev):
             # Nu represented as polynomial
             items, coefficients = get_list_record(file_obj)
             yield_ = Polynomial(coefficients)
-            for neutron in products[-6:]:
+            for neutron in products[-len(decay_constants):]:
                 neutron.yield_ = deepcopy(yield_)
         elif lnu == 2:
             # Nu represented by tabulation
             params, yield_ = get_tab1_record(file_obj)
-            for neutron in products[-6:]:
+            for neutron in products[-len(decay_constants):]:
                 neutron.yield_ = deepcopy(yield_)
 
         if (5, 455) in ev.section:
-- 
2.43.0


From 7e0a48ae1732badb61402efc8167ecc5f47f465d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:34 +0000
Subject: [PATCH 057/104] fix: scale the whole polynomial of a delayed neutron
 yield

---
 ASAPy/data/reaction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 7f06649..860cfd3 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -459,7 +459,7 @@ def _get_fission_products_endf(ev):
                         delayed_neutron.yield_.y *= yield_.coef[0]
                     else:
                         if np.all(applicability.y == applicability.y[0]):
-                            yield_.coef[0] *= applicability.y[0]
+                            yield_.coef *= applicability.y[0]
                         else:
                             raise NotImplementedError(
                                 'Total delayed neutron yield and delayed group '
-- 
2.43.0


From 54f42d07bfb1291b9806e645e02e0d068c65e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:35 +0000
Subject: [PATCH 058/104] fix: use the photon energy of Files 12 and 13

---
 ASAPy/data/reaction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 860cfd3..eef39d3 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -697,7 +697,7 @@ def _get_photon_products_endf(ev, rx):
                     # TODO: Get file 15 distribution
                     pass
                 elif law == 2:
-                    energy = items[1]
+                    energy = items[0]
                     primary_flag = items[2]
                     dist.energy = DiscretePhoton(primary_flag, energy,
                                                  ev.target['mass'])
@@ -755,7 +755,7 @@ def _get_photon_products_endf(ev, rx):
                 # TODO: Get file 15 distribution
                 pass
             elif law == 2:
-                energy = items[1]
+                energy = items[0]
                 primary_flag = items[2]
                 dist.energy = DiscretePhoton(primary_flag, energy,
                                              ev.target['mass'])
-- 
2.43.0


From 2ee951cdf94ad18c742d9544acfd926efec93c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:35 +0000
Subject: [PATCH 059/104] fix: integrate the outgoing energies of laboratory
 distributions by their law

---
 ASAPy/data/laboratory.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/laboratory.py b/ASAPy/data/laboratory.py
index 1e747a5..5b53f06 100644
--- a/ASAPy/data/laboratory.py
+++ b/ASAPy/data/laboratory.py
@@ -131,8 +131,9 @@ class LaboratoryAngleEnergy(AngleEnergy):
             for j in range(n_mu):
                 params, f = get_tab1_record(file_obj)
                 mu_i[j] = params[1]
-                p_mu_i[j] = sum(f.y)
-                energy_out_i.append(Tabular(f.x, f.y))
+                p_mu_i[j] = f.integral()[-1]
+                energy_out_i.append(Tabular(
+                    f.x, f.y, INTERPOLATION_SCHEME[f.interpolation[0]]))
             mu.append(Tabular(mu_i, p_mu_i))
             energy_out.append(energy_out_i)
 
-- 
2.43.0


From 7d670fb1814053c2456136de7e2256dee38c026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:16 +0000
Subject: [PATCH 060/104] fix: sum the structure factors of the Bragg edges
 below the energy only

---
 ASAPy/data/thermal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 7141212..387ba81 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -141,8 +141,9 @@ class CoherentElastic(EqualityMixin):
     def __call__(self, E):
         if isinstance(E, Iterable):
             E = np.asarray(E)
+        # Only the edges below E contribute
         idx = np.searchsorted(self.bragg_edges, E)
-        return self.factors[idx] / E
+        return np.concatenate(([0.], self.factors))[idx] / E
 
     def __len__(self):
         return len(self.bragg_edges)
-- 
2.43.0


From bf668037edd5282214278c194e1e72171dfe3eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:16 +0000
Subject: [PATCH 061/104] fix: use the material name given for a thermal
 scattering table

---
 ASAPy/data/thermal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index 387ba81..e8e030c 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -477,8 +477,9 @@ class ThermalScattering(EqualityMixin):
             ace = get_table(ace_or_filename)
 
         # Get new name that is GND-consistent
-        ace_name, xs = ace.name.split('.')
-        name = get_thermal_name(ace_name)
+        if name is None:
+            ace_name, xs = ace.name.split('.')
+            name = get_thermal_name(ace_name)
 
         # Assign temperature to the running list
         kTs = [ace.temperature*EV_PER_MEV]
-- 
2.43.0


From 0b6f43e2cb0d6bc75b73d5205a035a4cb322b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:02 +0000
Subject: [PATCH 062/104] fix: accept tabulated recoverable and total energies
 in the fission energy release

---
 ASAPy/data/fission_energy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/fission_energy.py b/ASAPy/data/fission_energy.py
index fa9bf15..ed89809 100644
--- a/ASAPy/data/fission_energy.py
+++ b/ASAPy/data/fission_energy.py
@@ -326,8 +326,10 @@ class FissionEnergyRelease(EqualityMixin):
                 ifc = items[3]
                 name = _NAMES[ifc - 1]
 
-                # Replace value in dictionary
-                functions[name] = eifc
+                # Replace value in dictionary (recoverable and total are
+                # recalculated)
+                if name not in ('recoverable', 'total'):
+                    functions[name] = eifc
 
         # Build the object
         return cls(**functions)
-- 
2.43.0


From ca088d119845cb25f909c4ac6f953e609bd90529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:42 +0000
Subject: [PATCH 063/104] fix: read the angular distribution flag of
 Reich-Moore parameters from its field

---
 ASAPy/data/resonance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index d13012c..214566b 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -601,7 +601,7 @@ class ReichMoore(ResonanceRange):
         items = get_cont_record(file_obj)
         target_spin = items[0]
         ap = Polynomial((items[1],))
-        angle_distribution = (items[3] == 1)  # Flag for angular distribution
+        angle_distribution = (items[2] == 1)  # Flag for angular distribution
         NLS = items[4]  # Number of l-values
         num_l_convergence = items[5]  # Number of l-values for convergence
 
-- 
2.43.0


From b029f87d7c41644bd6efc90e38eb2f6f28c5efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:46 +0000
Subject: [PATCH 064/104] fix: give each energy its own fission width in the
 unresolved range

---
 ASAPy/data/resonance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 214566b..d2f94a7 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -1022,7 +1022,7 @@ class Unresolved(ResonanceRange):
                     gg = values[4]
                     gf = values[6:]
                     for k, gf_i in enumerate(gf):
-                        records[k].append([l, j, d, amun, gn0, gg, gf])
+                        records[k].append([l, j, d, amun, gn0, gg, gf_i])
             parameters = [pd.DataFrame(r, columns=columns) for r in records]
 
         elif formalism == 2:
-- 
2.43.0


From 10df6c012d61b22a2757ed9e019b00a37e8a29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:21 +0000
Subject: [PATCH 065/104] fix: keep every short-range block of resonance
 covariances

---
 ASAPy/data/resonance_covariance.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 58c01b0..6c1c178 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -392,6 +392,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
             # Read resonance widths, J values, etc
             records = []
+            cov = np.zeros([0, 0])
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -411,11 +412,17 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     records.append([energy[i], spin[i], gt[i], gn[i],
                                     gg[i], gf[i]])
 
-                # Build the upper-triangular covariance matrix
+                # Build the upper-triangular covariance matrix of this block
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
+                block = np.zeros([cov_dim, cov_dim])
                 indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                block[indices] = cov_values
+
+                # There are no covariances between blocks
+                start = cov.shape[0]
+                cov = np.pad(cov, ((0, cov_dim), (0, cov_dim)), 'constant',
+                             constant_values=0)
+                cov[start:, start:] = block
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
@@ -628,6 +635,7 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
             channel_radius = {}
             scattering_radius = {}
             records = []
+            cov = np.zeros([0, 0])
             for i in range(num_short_range):
                 items, values = endf.get_list_record(file_obj)
                 mpar = items[2]
@@ -647,11 +655,17 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
                     records.append([energy[i], spin[i], gn[i], gg[i],
                                     gfa[i], gfb[i]])
 
-                # Build the upper-triangular covariance matrix
+                # Build the upper-triangular covariance matrix of this block
                 cov_dim = mpar*num_res
-                cov = np.zeros([cov_dim, cov_dim])
+                block = np.zeros([cov_dim, cov_dim])
                 indices = np.triu_indices(cov_dim)
-                cov[indices] = cov_values
+                block[indices] = cov_values
+
+                # There are no covariances between blocks
+                start = cov.shape[0]
+                cov = np.pad(cov, ((0, cov_dim), (0, cov_dim)), 'constant',
+                             constant_values=0)
+                cov[start:, start:] = block
 
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
-- 
2.43.0


From d5458e4be72231b56a584f843522fde2e0c6fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:21 +0000
Subject: [PATCH 066/104] fix: make room for the resonances of every l-value in
 compatible resonance covariances

---
 ASAPy/data/resonance_covariance.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 6c1c178..818b819 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -459,7 +459,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
 
         # Compatible resolved resonance format
         elif lcomp == 0:
-            cov = np.zeros([4, 4])
+            cov = np.zeros([0, 0])
             records = []
             cov_index = 0
             for i in range(nls):
@@ -471,6 +471,10 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov_values = one_res[6:]
                     records.append(list(res_values))
 
+                    # Pad matrix for the values of this resonance
+                    cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
+                                 constant_values=0)
+
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
@@ -481,9 +485,6 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     cov[cov_index+3, cov_index+3] = cov_values[6]
 
                     cov_index += 4
-                    if j < num_res-1:  # Pad matrix for additional values
-                        cov = np.pad(cov, ((0, 4), (0, 4)), 'constant',
-                                     constant_values=0)
 
         # Create pandas DataFrame with resonance data, currently
         # redundant with data.IncidentNeutron.resonance
-- 
2.43.0


From e8525f11cde6616ad02ee84ef609dac44fbf9802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:21 +0000
Subject: [PATCH 067/104] fix: read the covariance of neutron and capture
 widths of compatible resonance covariances

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 818b819..e36a1c0 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -478,7 +478,7 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                     # Populate the coviariance matrix for this resonance
                     # There are no covariances between resonances in lcomp=0
                     cov[cov_index, cov_index] = cov_values[0]
-                    cov[cov_index+1, cov_index+1 : cov_index+2] = cov_values[1:2]
+                    cov[cov_index+1, cov_index+1 : cov_index+3] = cov_values[1:3]
                     cov[cov_index+1, cov_index+3] = cov_values[4]
                     cov[cov_index+2, cov_index+2] = cov_values[3]
                     cov[cov_index+2, cov_index+3] = cov_values[5]
-- 
2.43.0


From e341156152cf25a84bfd1d76c260bd98ceb31846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:21 +0000
Subject: [PATCH 068/104] fix: skip the scattering radius uncertainty ahead of
 resonance covariances

---
 ASAPy/data/resonance_covariance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index e36a1c0..01a00c5 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -381,6 +381,9 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
         target_spin = items[0]
         lcomp = items[3]  # Flag for compatibility 0, 1, 2 - 2 is compact form
         nls = items[4]  # number of l-values
+        isr = items[5]  # scattering radius uncertainty given?
+        if isr > 0:
+            endf.get_cont_record(file_obj)
 
         # Build covariance matrix for General Resolved Resonance Formats
         if lcomp == 1:
@@ -624,6 +627,9 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
         target_spin = items[0]
         lcomp = items[3]  # Flag for compatibility 0, 1, 2 - 2 is compact form
         nls = items[4]  # Number of l-values
+        isr = items[5]  # Scattering radius uncertainty given?
+        if isr > 0:
+            endf.get_list_record(file_obj)
 
         # Build covariance matrix for General Resolved Resonance Formats
         if lcomp == 1:
-- 
2.43.0


From ed6dcf883392f5de859dc1d17b9f8072a32340f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:21 +0000
Subject: [PATCH 069/104] fix: pair resonance covariances with the parameters
 of their own isotope

---
 ASAPy/data/resonance_covariance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 01a00c5..ea3381a 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -93,6 +93,7 @@ class ResonanceCovariances(Resonances):
         n_isotope = items[4]  # Number of isotopes
 
         ranges = []
+        i_range = 0  # Index of the range in File 2
         for iso in range(n_isotope):
             items = endf.get_cont_record(file_obj)
             abundance = items[1]
@@ -115,7 +116,7 @@ class ResonanceCovariances(Resonances):
 
                 if unresolved_flag in (0, 1):
                     # Resolved resonance region
-                    resonance = resonances.ranges[j]
+                    resonance = resonances.ranges[i_range]
                     erange = _FORMALISMS[formalism].from_endf(ev, file_obj,
                                                               items, resonance)
                     ranges.append(erange)
@@ -125,6 +126,8 @@ class ResonanceCovariances(Resonances):
                            'values for the unresolved region not imported.'
                     warnings.warn(warn)
 
+                i_range += 1
+
         return cls(ranges)
 
 
-- 
2.43.0


From af8a9afb478e834051b13bdbd5e3d1318e0c083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:21 +0000
Subject: [PATCH 070/104] fix: take the covariance of the resonances that a
 subset selects

---
 ASAPy/data/resonance_covariance.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index ea3381a..a4af296 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -187,15 +187,14 @@ class ResonanceCovarianceRange:
         # Copy range and prevent change of original
         res_cov_range = copy.deepcopy(self)
 
-        parameters = self.file2res.parameters
+        # The covariance matrix is in the order of the File 32 parameters
+        parameters = self.parameters
         cov = res_cov_range.covariance
         mpar = res_cov_range.mpar
         # Create mask
-        mask1 = parameters[parameter_str] >= bounds[0]
-        mask2 = parameters[parameter_str] <= bounds[1]
-        mask = mask1 & mask2
+        mask = parameters[parameter_str].between(*bounds)
         res_cov_range.parameters = parameters[mask]
-        indices = res_cov_range.parameters.index.values
+        indices = np.flatnonzero(mask)
         # Build subset of covariance
         sub_cov_dim = len(indices)*mpar
         cov_subset_vals = []
@@ -211,7 +210,9 @@ class ResonanceCovarianceRange:
         tri_indices = np.triu_indices(sub_cov_dim)
         cov_subset[tri_indices] = cov_subset_vals
 
-        res_cov_range.file2res.parameters = parameters[mask]
+        file2params = self.file2res.parameters
+        res_cov_range.file2res.parameters = file2params[
+            file2params[parameter_str].between(*bounds)]
         res_cov_range.covariance = cov_subset
         return res_cov_range
 
-- 
2.43.0


From 94f3c6f029641d48b779a1dc7f368713b3300e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:22 +0000
Subject: [PATCH 071/104] fix: do not double the covariances of compact
 resonance covariances in samples

---
 ASAPy/data/resonance_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index a4af296..6c2c536 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -238,7 +238,8 @@ class ResonanceCovarianceRange:
         parameters = self.parameters
         cov = self.covariance
 
-        # Symmetrizing covariance matrix
+        # Symmetrizing covariance matrix (which may be upper triangular)
+        cov = np.triu(cov)
         cov = cov + cov.T - np.diag(cov.diagonal())
         formalism = self.formalism
         mpar = self.mpar
-- 
2.43.0


From 9f0230d7a8fae95a7db0e2f3a3c3fc17b9af5246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:22 +0000
Subject: [PATCH 072/104] fix: sample the second fission width only where its
 covariance is given

---
 ASAPy/data/resonance_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 6c2c536..9f2b8aa 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -293,7 +293,7 @@ class ResonanceCovarianceRange:
                 gn = sample[1::mpar]
                 gg = sample[2::mpar]
                 gfa = sample[3::mpar] if mpar > 3 else parameters['fissionWidthA'].values
-                gfb = sample[4::mpar] if mpar > 3 else parameters['fissionWidthB'].values
+                gfb = sample[4::mpar] if mpar > 4 else parameters['fissionWidthB'].values
 
                 records = []
                 for j, E in enumerate(energy):
-- 
2.43.0


From 1e73c799a8c13b3323749b511105c3fd622d3602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:40 +0000
Subject: [PATCH 073/104] fix: use the last window at the upper end of windowed
 multipole data

---
 ASAPy/data/multipole.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index e97605c..0887a43 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -417,7 +417,8 @@ class WindowedMultipole(EqualityMixin):
         # the 1-based vs. 0-based indexing.  Similarly startw needs to be
         # decreased by 1.  endw does not need to be decreased because
         # range(startw, endw) does not include endw.
-        i_window = int(np.floor((sqrtE - sqrt(self.E_min)) / self.spacing))
+        i_window = min(len(self.windows) - 1, int(
+            np.floor((sqrtE - sqrt(self.E_min)) / self.spacing)))
         startw = self.windows[i_window, 0] - 1
         endw = self.windows[i_window, 1]
 
-- 
2.43.0


From 4f877033df785a2421892d1be8c354971f0f01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:40 +0000
Subject: [PATCH 074/104] fix: do not truncate multipole cross sections after
 an energy out of range

---
 ASAPy/data/multipole.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/multipole.py b/ASAPy/data/multipole.py
index 0887a43..bb359d4 100644
--- a/ASAPy/data/multipole.py
+++ b/ASAPy/data/multipole.py
@@ -402,8 +402,8 @@ class WindowedMultipole(EqualityMixin):
 
         """
 
-        if E < self.E_min: return (0, 0, 0)
-        if E > self.E_max: return (0, 0, 0)
+        if E < self.E_min: return (0.0, 0.0, 0.0)
+        if E > self.E_max: return (0.0, 0.0, 0.0)
 
         # ======================================================================
         # Bookkeeping
-- 
2.43.0


From 3871c45bf880a47fa03deb7d188c7bef444e7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:49 +0000
Subject: [PATCH 075/104] fix: start photoatomic cross sections of ACE tables
 at their threshold

---
 ASAPy/data/photon.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 2596d8a..7f822f7 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -34,6 +34,18 @@ def _subshell(i):
         return _SUBSHELLS[i - 1]
 
 
+# Helper function to create a cross section from logarithms, where zero stands
+# for no cross section. Below its threshold there is nothing to interpolate on a
+# logarithmic scale, so the table starts at the threshold.
+def _log_cross_section(energy, log_xs):
+    nonzero = np.flatnonzero(log_xs)
+    if nonzero.size == 0:
+        return Tabulated1D(energy, np.zeros_like(energy))
+    start = nonzero[0]
+    return Tabulated1D(energy[start:], np.exp(log_xs[start:]),
+                       [energy.size - start], [5])
+
+
 _REACTION_NAME = {
     501: 'Total photon interaction',
     502: 'Photon coherent scattering',
@@ -507,10 +519,7 @@ class IncidentPhoton(EqualityMixin):
                 data.reactions[mt] = rx
 
                 # Store cross section
-                xs = ace.xss[idx : idx+n_energy].copy()
-                nonzero = (xs != 0.0)
-                xs[nonzero] = np.exp(xs[nonzero])
-                rx.xs = Tabulated1D(energy, xs, [n_energy], [5])
+                rx.xs = _log_cross_section(energy, ace.xss[idx : idx+n_energy])
                 idx += n_energy
 
                 # Copy binding energy
@@ -906,10 +915,7 @@ class PhotonReaction(EqualityMixin):
                              'data for MT={}.'.format(mt))
 
         # Store cross section
-        xs = ace.xss[idx : idx+n].copy()
-        nonzero = (xs != 0.0)
-        xs[nonzero] = np.exp(xs[nonzero])
-        rx.xs = Tabulated1D(energy, xs, [n], [5])
+        rx.xs = _log_cross_section(energy, ace.xss[idx : idx+n])
 
         # Get form factors for incoherent/coherent scattering
         new_format = (ace.nxs[6] > 0)
-- 
2.43.0


From 4c70b675fbb9007fdf501f020749efc5092154bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 076/104] fix: do not take a file of an earlier NJOY run for
 the output of this one

---
 ASAPy/data/njoy.py | 3 +++
 ASAPy/njoy.py      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ASAPy/data/njoy.py b/ASAPy/data/njoy.py
index 36f6163..ca935ee 100644
--- a/ASAPy/data/njoy.py
+++ b/ASAPy/data/njoy.py
@@ -183,6 +183,9 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
             tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
             if os.path.isfile(tmpfilename):
                 shutil.move(tmpfilename, str(filename))
+            elif os.path.isfile(str(filename)):
+                # A file of an earlier run is not the output of this one
+                os.remove(str(filename))
 
 
 def make_pendf(filename, pendf='pendf', error=0.001, stdout=False):
diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 31fd7f9..6139643 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -391,6 +391,9 @@ def run(commands, tapein, tapeout, input_filename=None, stdout=False,
             tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
             if os.path.isfile(tmpfilename):
                 shutil.move(tmpfilename, filename)
+            elif os.path.isfile(filename):
+                # A file of an earlier run is not the output of this one
+                os.remove(filename)
 
 
 # make_njoy_run has an option of the same name
-- 
2.43.0


From bad860ca4325b5d532c16539ac66985bceb14bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 077/104] fix: keep the ACE tables of nearby temperatures apart

---
 ASAPy/data/njoy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/njoy.py b/ASAPy/data/njoy.py
index ca935ee..ae1c402 100644
--- a/ASAPy/data/njoy.py
+++ b/ASAPy/data/njoy.py
@@ -300,7 +300,7 @@ def make_ace(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
     # acer
     if acer:
         nacer_in = nlast
-        fname = '{}_{:.1f}'
+        fname = '{}_{}'
         for i, temperature in enumerate(temperatures):
             # Extend input with an ACER run for each temperature
             nace = nacer_in + 1 + 2*i
@@ -449,7 +449,7 @@ def make_ace_thermal(filename, filename_thermal, temperatures=None,
 
     # acer
     nthermal_acer_in = nlast
-    fname = '{}_{:.1f}'
+    fname = '{}_{}'
     for i, temperature in enumerate(temperatures):
         # Extend input with an ACER run for each temperature
         nace = nthermal_acer_in + 1 + 2*i
-- 
2.43.0


From 950246956c0e2bdc2270d528341eb7c149fe737a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 078/104] fix: name metastable tables in the xsdir file as in
 the ACE file

---
 ASAPy/data/njoy.py |  7 +++++--
 ASAPy/njoy.py      | 10 ++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/njoy.py b/ASAPy/data/njoy.py
index ae1c402..42f9536 100644
--- a/ASAPy/data/njoy.py
+++ b/ASAPy/data/njoy.py
@@ -331,8 +331,11 @@ def make_ace(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=None,
                 ace_file.write(text)
 
                 # Concatenate into destination xsdir file
-                text = open(fname.format(xsdir, temperature), 'r').read()
-                xsdir_file.write(text)
+                xsdir_text = open(fname.format(xsdir, temperature), 'r').read()
+                if ev.target['isomeric_state'] > 0:
+                    # The entry has the name of its table
+                    xsdir_text = text[:6] + xsdir_text[6:]
+                xsdir_file.write(xsdir_text)
 
         # Remove ACE/xsdir files for each temperature
         for temperature in temperatures:
diff --git a/ASAPy/njoy.py b/ASAPy/njoy.py
index 6139643..14861fd 100644
--- a/ASAPy/njoy.py
+++ b/ASAPy/njoy.py
@@ -693,9 +693,15 @@ def make_njoy_run(filename, temperatures=None, ace='ace', xsdir='xsdir', pendf=N
                         if mass_first_digit <= 2:
                             text = text[:3] + str(mass_first_digit + 4) + text[4:]
 
-                    # Concatenate into destination ACE and xsdir files
+                    # Concatenate into destination ACE file
                     ace_file.write(text)
-                    xsdir_file.write(open(fname.format(xsdir, temperature), 'r').read())
+
+                    # Concatenate into destination xsdir file
+                    xsdir_text = open(fname.format(xsdir, temperature), 'r').read()
+                    if ev.target['isomeric_state'] > 0:
+                        # The entry has the name of its table
+                        xsdir_text = text[:6] + xsdir_text[6:]
+                    xsdir_file.write(xsdir_text)
         else:
             # see if the user should know to edit the acer file later
             if ev.target['isomeric_state'] > 0:
-- 
2.43.0


From 57e9b5a3fee91c2f9704b07a1396ab2da638153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:00 +0000
Subject: [PATCH 079/104] fix: tell the two states of Am242 apart in data
 processed by NJOY

---
 ASAPy/data/neutron.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index b053b41..7f1851d 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -822,11 +822,12 @@ class IncidentNeutron(EqualityMixin):
             make_ace(filename, temperatures, ace_file, xsdir_file,
                      pendf_file, **kwargs)
 
-            # Create instance from ACE tables within library
+            # Create instance from ACE tables within library. The ZAID of every
+            # metastable target, Am242m included, has been raised by 400
             lib = Library(ace_file)
-            data = cls.from_ace(lib.tables[0])
+            data = cls.from_ace(lib.tables[0], 'nndc')
             for table in lib.tables[1:]:
-                data.add_temperature_from_ace(table)
+                data.add_temperature_from_ace(table, 'nndc')
 
             # Add fission energy release data
             ev = Evaluation(filename)
-- 
2.43.0


From 8f389fbdefa04641835bdb22865e8493aac02e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:31 +0000
Subject: [PATCH 080/104] fix: compare data objects that hold containers of
 arrays

---
 ASAPy/data/mixin.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ASAPy/data/mixin.py b/ASAPy/data/mixin.py
index 11ac51a..69070eb 100644
--- a/ASAPy/data/mixin.py
+++ b/ASAPy/data/mixin.py
@@ -1,11 +1,26 @@
+from collections.abc import Mapping
 from numbers import Integral
 from warnings import warn
 
 import numpy as np
+import pandas as pd
 
 from . import checkvalue as cv
 
 
+def _equal(a, b):
+    """Compare two attributes, which may be containers of arrays."""
+    if isinstance(a, Mapping) and isinstance(b, Mapping):
+        return (a.keys() == b.keys() and
+                all(_equal(value, b[key]) for key, value in a.items()))
+    elif isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
+        return len(a) == len(b) and all(_equal(x, y) for x, y in zip(a, b))
+    elif isinstance(a, (pd.DataFrame, pd.Series)):
+        return a.equals(b)
+    else:
+        return bool(np.array_equal(a, b))
+
+
 class EqualityMixin(object):
     """A Class which provides generic __eq__ and __ne__ functionality which
     can easily be inherited by downstream classes.
@@ -13,14 +28,10 @@ class EqualityMixin(object):
 
     def __eq__(self, other):
         if isinstance(other, type(self)):
-            for key, value in self.__dict__.items():
-                if not np.array_equal(value, other.__dict__.get(key)):
-                    return False
+            return _equal(self.__dict__, other.__dict__)
         else:
             return False
 
-        return True
-
     def __ne__(self, other):
         return not self.__eq__(other)
 
-- 
2.43.0


From acd70b30da8db8023f83c19b5cf6242c2b4d504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 081/104] fix: check every element that enters a CheckedList,
 and keep all of them in order

---
 ASAPy/data/checkvalue.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index cbeac9c..b8072f0 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -301,15 +301,38 @@ class CheckedList(list):
         return new_instance
 
     def __radd__(self, other):
-        return self + other
+        return CheckedList(self.expected_type, self.name, other) + self
 
     def __iadd__(self, other):
-        check_type('CheckedList add operand', other, Iterable,
+        check_type('CheckedList add operand', other, Iterable)
+        items = list(other)
+        check_type('CheckedList add operand', items, Iterable,
                    self.expected_type)
-        for item in other:
-            self.append(item)
+        super().extend(items)
         return self
 
+    def __setitem__(self, index, value):
+        if isinstance(index, slice):
+            value = list(value)
+            check_type(self.name, value, Iterable, self.expected_type)
+        else:
+            check_type(self.name, value, self.expected_type)
+        super().__setitem__(index, value)
+
+    def __reduce__(self):
+        return CheckedList, (self.expected_type, self.name, list(self))
+
+    def extend(self, items):
+        """Append each of several items to list
+
+        Parameters
+        ----------
+        items : Iterable
+            Items to append
+
+        """
+        self += items
+
     def append(self, item):
         """Append item to list
 
-- 
2.43.0


From 8996a4cc8156a1acdacaa42c5db736bde82440d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:19 +0000
Subject: [PATCH 082/104] fix: assign a dictionary of probability tables

---
 ASAPy/data/neutron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 7f1851d..cae50b3 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -228,7 +228,7 @@ class IncidentNeutron(EqualityMixin):
     @urr.setter
     def urr(self, urr):
         cv.check_type('probability table dictionary', urr, MutableMapping)
-        for key, value in urr:
+        for key, value in urr.items():
             cv.check_type('probability table temperature', key, str)
             cv.check_type('probability tables', value, ProbabilityTables)
         self._urr = urr
-- 
2.43.0


From 5ec2e6af7647410ed42a9b34215dc5b02195fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:37 +0000
Subject: [PATCH 083/104] fix: store the temperature of a Madland-Nix spectrum
 under the name it is read by

---
 ASAPy/data/energy_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index 0243aab..762be81 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -731,7 +731,7 @@ class MadlandNix(EnergyDistribution):
         group.attrs['type'] = np.string_('madland-nix')
         group.attrs['efl'] = self.efl
         group.attrs['efh'] = self.efh
-        self.tm.to_hdf5(group)
+        self.tm.to_hdf5(group, 'tm')
 
     @classmethod
     def from_hdf5(cls, group):
-- 
2.43.0


From e3efa410c8d8b7b112138c3933513d5b9061af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:37 +0000
Subject: [PATCH 084/104] fix: refuse an array of the wrong type where several
 types are accepted with a TypeError

---
 ASAPy/data/checkvalue.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index b8072f0..49cd30a 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -34,11 +34,7 @@ def check_type(name, value, expected_type, expected_iter_type=None):
 
     if expected_iter_type:
         if isinstance(value, np.ndarray):
-            if not issubclass(value.dtype.type, expected_iter_type):
-                msg = 'Unable to set "{0}" to "{1}" since each item must be ' \
-                      'of type "{2}"'.format(name, value,
-                                             expected_iter_type.__name__)
-            else:
+            if issubclass(value.dtype.type, expected_iter_type):
                 return
 
         for item in value:
-- 
2.43.0


From aa4db086d3b60b4c751be6d931a5510432a6cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:37 +0000
Subject: [PATCH 085/104] fix: report a file whose type cannot be read as such

---
 ASAPy/data/checkvalue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/checkvalue.py b/ASAPy/data/checkvalue.py
index 49cd30a..54490c0 100644
--- a/ASAPy/data/checkvalue.py
+++ b/ASAPy/data/checkvalue.py
@@ -265,7 +265,7 @@ def check_filetype_version(obj, expected_type, expected_version):
                               '.'.join(str(v) for v in this_version),
                               expected_version))
     except AttributeError:
-        raise IOError('Could not read {} file. This most likely means the {} '
+        raise IOError('Could not read {0} file. This most likely means the {0} '
                       'file was produced by a different version of OpenMC than '
                       'the one you are using.'.format(expected_type))
 
-- 
2.43.0


From 7ad017dfbd97f7f12fa8328c8740c8ea41ea45da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:51 +0000
Subject: [PATCH 086/104] fix: neutron data without resonance covariances has
 none

---
 ASAPy/data/neutron.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index cae50b3..328589a 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -110,6 +110,7 @@ class IncidentNeutron(EqualityMixin):
         self.reactions = OrderedDict()
         self._urr = {}
         self._resonances = None
+        self._resonance_covariance = None
 
     def __contains__(self, mt):
         return mt in self.reactions
-- 
2.43.0


From c3a57cd312327e98fc439ed85f0691408da10fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:47 +0000
Subject: [PATCH 087/104] fix: a copy of a resonance range does not share the
 prepared parameters of the original

---
 ASAPy/data/resonance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index d2f94a7..2d0f5a2 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -168,6 +168,7 @@ class ResonanceRange(object):
         new_copy = cls.__new__(cls)
         new_copy.__dict__.update(self.__dict__)
         new_copy._prepared = False
+        new_copy._parameter_matrix = {}
         return new_copy
 
     @classmethod
-- 
2.43.0


From 8e43b2f8fcff9c3b980e76f14c7f61ba5b805f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:47 +0000
Subject: [PATCH 088/104] fix: competitive widths in resonance reconstruction
 use the Q value and the wave number at the reduced energy

---
 ASAPy/data/reconstruct.pyx | 8 ++++----
 ASAPy/data/resonance.py    | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/ASAPy/data/reconstruct.pyx b/ASAPy/data/reconstruct.pyx
index f63a155..6bca358 100644
--- a/ASAPy/data/reconstruct.pyx
+++ b/ASAPy/data/reconstruct.pyx
@@ -172,8 +172,8 @@ def reconstruct_mlbw(mlbw, double E):
         # Determine shift and penetration at modified energy
         if mlbw._competitive[i]:
             Ex = E + mlbw.q_value[l]*(A + 1)/A
-            rhoc = mlbw.channel_radius[l](Ex)
-            rhochat = mlbw.scattering_radius[l](Ex)
+            rhoc = _wave_number(A, Ex)*mlbw.channel_radius[l](Ex)
+            rhochat = _wave_number(A, Ex)*mlbw.scattering_radius[l](Ex)
             P_c, S_c = penetration_shift(l, rhoc)
             if Ex < 0:
                 P_c = 0
@@ -299,8 +299,8 @@ def reconstruct_slbw(slbw, double E):
         # Determine shift and penetration at modified energy
         if slbw._competitive[i]:
             Ex = E + slbw.q_value[l]*(A + 1)/A
-            rhoc = slbw.channel_radius[l](Ex)
-            rhochat = slbw.scattering_radius[l](Ex)
+            rhoc = _wave_number(A, Ex)*slbw.channel_radius[l](Ex)
+            rhochat = _wave_number(A, Ex)*slbw.scattering_radius[l](Ex)
             P_c, S_c = penetration_shift(l, rhoc)
             if Ex < 0:
                 P_c = 0
diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 2d0f5a2..e376b2b 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -421,7 +421,9 @@ class MultiLevelBreitWigner(ResonanceRange):
         for i, E, l, J, gt, gn, gg, gf, gx in df.itertuples():
             if l not in l_values:
                 l_values.append(l)
-                competitive.append(gx > 0)
+                competitive.append(False)
+            if gx > 0:
+                competitive[l_values.index(l)] = True
 
             # Determine penetration and shift corresponding to resonance energy
             k = wave_number(A, E)
@@ -431,7 +433,8 @@ class MultiLevelBreitWigner(ResonanceRange):
 
             # Determine penetration at modified energy for competitive reaction
             if gx > 0:
-                Ex = E + self.q[l]*(A + 1)/A
+                Ex = E + self.q_value[l]*(A + 1)/A
+                k = wave_number(A, Ex)
                 rho = k*self.channel_radius[l](Ex)
                 rhohat = k*self.scattering_radius[l](Ex)
                 px[i], sx[i] = penetration_shift(l, rho)
-- 
2.43.0


From 57c1bdcdaf157214b7b3da9014ce89225e0549b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:47 +0000
Subject: [PATCH 089/104] fix: where two resolved resonance ranges meet, the
 cross section is not added twice

---
 ASAPy/data/function.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ASAPy/data/function.py b/ASAPy/data/function.py
index 2eef02f..ebe342f 100644
--- a/ASAPy/data/function.py
+++ b/ASAPy/data/function.py
@@ -632,6 +632,10 @@ class ResonancesWithBackground(EqualityMixin):
         # Get background cross section
         xs = self.background(x)
 
+        # Energies at which a range was already added (where two ranges meet,
+        # only the first one applies)
+        done = np.zeros(np.shape(x), dtype=bool)
+
         for r in self.resonances:
             if not isinstance(r, resonance._RESOLVED):
                 continue
@@ -639,12 +643,16 @@ class ResonancesWithBackground(EqualityMixin):
             if isinstance(x, Iterable):
                 # Determine which energies are within resolved resonance range
                 within = (r.energy_min <= x) & (x <= r.energy_max)
+                within &= ~(done & (x == r.energy_min))
+                done |= within
 
                 # Get resonance cross sections and add to background
                 resonant_xs = r.reconstruct(x[within])
                 xs[within] += resonant_xs[self.mt]
             else:
-                if r.energy_min <= x <= r.energy_max:
+                if (r.energy_min <= x <= r.energy_max
+                        and not (done and x == r.energy_min)):
+                    done = True
                     resonant_xs = r.reconstruct(x)
                     xs += resonant_xs[self.mt]
 
-- 
2.43.0


From 5c55db35a2a5c34120a06b0bc8d5fadc00b83e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:10 +0000
Subject: [PATCH 090/104] fix: elastic scattering at 0 K of evaluations without
 resolved resonances

---
 ASAPy/data/neutron.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 328589a..3c47f28 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -307,14 +307,14 @@ class IncidentNeutron(EqualityMixin):
             raise ValueError('0 K data already exists for this nuclide.')
 
         data = type(self).from_endf(filename)
-        if data.resonances is not None:
+        resolved = [rr for rr in data.resonances or []
+                    if isinstance(rr, res._RESOLVED)]
+        if resolved:
             x = []
             y = []
-            for rr in data.resonances:
+            for rr in resolved:
                 if isinstance(rr, res.RMatrixLimited):
                     raise TypeError('R-Matrix Limited not supported.')
-                elif isinstance(rr, res.Unresolved):
-                    continue
 
                 # Get energies/widths for resonances
                 e_peak = rr.parameters['energy'].values
-- 
2.43.0


From 79accb576cfe064f0c67d2badb9fd623ca2b654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:08 +0000
Subject: [PATCH 091/104] fix: building neutron data leaves the cross sections
 of the ACE table as they are

---
 ASAPy/data/neutron.py  | 5 +++--
 ASAPy/data/reaction.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ASAPy/data/neutron.py b/ASAPy/data/neutron.py
index 3c47f28..ce4e3a2 100644
--- a/ASAPy/data/neutron.py
+++ b/ASAPy/data/neutron.py
@@ -623,9 +623,10 @@ class IncidentNeutron(EqualityMixin):
         n_energy = ace.nxs[3]
         energy = ace.xss[ace.jxs[1]:ace.jxs[1] + n_energy]*EV_PER_MEV
         data.energy[strT] = energy
-        total_xs = ace.xss[ace.jxs[1] + n_energy:ace.jxs[1] + 2 * n_energy]
+        total_xs = ace.xss[ace.jxs[1] + n_energy:
+                           ace.jxs[1] + 2 * n_energy].copy()
         absorption_xs = ace.xss[ace.jxs[1] + 2 * n_energy:ace.jxs[1] +
-                                3 * n_energy]
+                                3 * n_energy].copy()
 
         # Create redundant reactions (total and absorption)
         total = Reaction(1)
diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index eef39d3..7b42fda 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -994,7 +994,7 @@ class Reaction(EqualityMixin):
             energy = grid[threshold_idx:threshold_idx + n_energy]
 
             # Read reaction cross section
-            xs = ace.xss[ace.jxs[7] + loc + 1:ace.jxs[7] + loc + 1 + n_energy]
+            xs = ace.xss[ace.jxs[7] + loc + 1:ace.jxs[7] + loc + 1 + n_energy].copy()
 
             # Fix negatives -- known issue for Y89 in JEFF 3.2
             if np.any(xs < 0.0):
@@ -1055,7 +1055,7 @@ class Reaction(EqualityMixin):
             rx = cls(mt)
 
             # Get elastic cross section values
-            elastic_xs = ace.xss[ace.jxs[1] + 3*n_grid:ace.jxs[1] + 4*n_grid]
+            elastic_xs = ace.xss[ace.jxs[1] + 3*n_grid:ace.jxs[1] + 4*n_grid].copy()
 
             # Fix negatives -- known issue for Ti46,49,50 in JEFF 3.2
             if np.any(elastic_xs < 0.0):
-- 
2.43.0


From 8ad8f665a8fa5880cf0aee4beadaf59b682b93a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:08 +0000
Subject: [PATCH 092/104] fix: delayed neutron yields are not rescaled by the
 sum of some of the group probabilities

---
 ASAPy/data/reaction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index 7b42fda..d8c78b1 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -284,6 +284,7 @@ def _get_fission_products_ace(ace):
         idx = ace.jxs[25]
         n_group = ace.nxs[8]
         total_group_probability = 0.
+        all_constant = True
         for group in range(n_group):
             delayed_neutron = Product('neutron')
             delayed_neutron.emission_mode = 'delayed'
@@ -297,6 +298,8 @@ def _get_fission_products_ace(ace):
                 delayed_neutron.yield_.y *= group_probability.y[0]
                 total_group_probability += group_probability.y[0]
             else:
+                all_constant = False
+
                 # Get union energy grid and ensure energies are within
                 # interpolable range of both functions
                 max_energy = min(yield_delayed.x[-1], group_probability.x[-1])
@@ -320,9 +323,10 @@ def _get_fission_products_ace(ace):
             products.append(delayed_neutron)
 
         # Renormalize delayed neutron yields to reflect fact that in ACE
-        # file, the sum of the group probabilities is not exactly one
+        # file, the sum of the group probabilities is not exactly one. The sum
+        # is known only if none of the probabilities depends on energy.
         for product in products[1:]:
-            if total_group_probability > 0.:
+            if all_constant and total_group_probability > 0.:
                 product.yield_.y /= total_group_probability
 
     return products, derived_products
-- 
2.43.0


From 063ca2749ef3ab6c2b1c3fa4feeec87d7e58b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:08 +0000
Subject: [PATCH 093/104] fix: reactions with several neutrons given by Files 4
 and 5 have the yield of their neutrons

---
 ASAPy/data/reaction.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ASAPy/data/reaction.py b/ASAPy/data/reaction.py
index d8c78b1..20a9d7a 100644
--- a/ASAPy/data/reaction.py
+++ b/ASAPy/data/reaction.py
@@ -3,6 +3,7 @@ from copy import deepcopy
 from numbers import Real, Integral
 from warnings import warn
 from io import StringIO
+import re
 
 import numpy as np
 
@@ -1147,6 +1148,11 @@ class Reaction(EqualityMixin):
             # Uncorrelated angle-energy distribution
             neutron = Product('neutron')
 
+            # Files 4 and 5 do not give a yield, it follows from the reaction
+            multiple = re.match(r'\(n,(\d+)n(?!f)', REACTION_NAME.get(mt, ''))
+            if multiple:
+                neutron.yield_ = Polynomial((int(multiple.group(1)),))
+
             # Note that the energy distribution for MT=455 is read in
             # _get_fission_products_endf rather than here
             if (5, mt) in ev.section:
-- 
2.43.0


From 0ee340b921ba2b6102c477c5dd19730e176edbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:18 +0000
Subject: [PATCH 094/104] fix: the table NJOY makes for calcium in CaH2 is not
 named after its hydrogen

---
 ASAPy/data/thermal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index e8e030c..fbe3942 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -30,7 +30,7 @@ _THERMAL_NAMES = {
     'c_Be_in_BeO': ('bebeo', 'be-beo', 'be-o', 'be/o'),
     'c_C6H6': ('benz', 'c6h6'),
     'c_C_in_SiC': ('csic', 'c-sic'),
-    'c_Ca_in_CaH2': ('cah',),
+    'c_Ca_in_CaH2': ('cah', 'cacah2'),
     'c_D_in_D2O': ('dd2o', 'd-d2o', 'hwtr', 'hw'),
     'c_Fe56': ('fe', 'fe56', 'fe-56'),
     'c_Graphite': ('graph', 'grph', 'gr'),
-- 
2.43.0


From fbc0c5cd693ae3a5fbefb0d69579cb7d5d8dda05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 095/104] fix: data built from an ACE table no longer shares
 the table's memory

---
 ASAPy/data/angle_distribution.py |  4 ++--
 ASAPy/data/correlated.py         |  2 +-
 ASAPy/data/photon.py             | 15 ++++++++-------
 ASAPy/data/thermal.py            | 12 ++++++------
 4 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/ASAPy/data/angle_distribution.py b/ASAPy/data/angle_distribution.py
index 42df7c5..cdb15e7 100644
--- a/ASAPy/data/angle_distribution.py
+++ b/ASAPy/data/angle_distribution.py
@@ -180,7 +180,7 @@ class AngleDistribution(EqualityMixin):
             if lc[i] > 0:
                 # Equiprobable 32 bin distribution
                 idx = location_dist + abs(lc[i]) - 1
-                cos = ace.xss[idx:idx + 33]
+                cos = ace.xss[idx:idx + 33].copy()
                 pdf = np.zeros(33)
                 pdf[:32] = 1.0/(32.0*np.diff(cos))
                 cdf = np.linspace(0.0, 1.0, 33)
@@ -192,7 +192,7 @@ class AngleDistribution(EqualityMixin):
                 idx = location_dist + abs(lc[i]) - 1
                 intt = int(ace.xss[idx])
                 n_points = int(ace.xss[idx + 1])
-                data = ace.xss[idx + 2:idx + 2 + 3*n_points]
+                data = ace.xss[idx + 2:idx + 2 + 3*n_points].copy()
                 data.shape = (3, n_points)
 
                 mu_i = Tabular(data[0], data[1], INTERPOLATION_SCHEME[intt])
diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 475e3d2..0d6d576 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -394,7 +394,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
 
                     intt = int(ace.xss[idx])
                     n_cosine = int(ace.xss[idx + 1])
-                    data = ace.xss[idx + 2:idx + 2 + 3*n_cosine]
+                    data = ace.xss[idx + 2:idx + 2 + 3*n_cosine].copy()
                     data.shape = (3, n_cosine)
 
                     mu_ij = Tabular(data[0], data[1], INTERPOLATION_SCHEME[intt])
diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index 7f822f7..b2c8af4 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -471,7 +471,8 @@ class IncidentPhoton(EqualityMixin):
         if n_shell != 0:
             # Get number of electrons in each shell
             idx = ace.jxs[6]
-            data.compton_profiles['num_electrons'] = ace.xss[idx : idx+n_shell]
+            data.compton_profiles['num_electrons'] = \
+                ace.xss[idx : idx+n_shell].copy()
 
             # Get binding energy for each shell
             idx = ace.jxs[7]
@@ -488,8 +489,8 @@ class IncidentPhoton(EqualityMixin):
 
                 # Read momentum and PDF
                 idx = ace.jxs[10] + loca + 1
-                pz = ace.xss[idx : idx+m]
-                pdf = ace.xss[idx+m : idx+2*m]
+                pz = ace.xss[idx : idx+m].copy()
+                pdf = ace.xss[idx+m : idx+2*m].copy()
 
                 # Create proflie function
                 J_k = Tabulated1D(pz, pdf, [m], [jj])
@@ -923,7 +924,7 @@ class PhotonReaction(EqualityMixin):
             idx = ace.jxs[3]
             if new_format:
                 n = (ace.jxs[4] - ace.jxs[3]) // 3
-                x = ace.xss[idx : idx+n]
+                x = ace.xss[idx : idx+n].copy()
                 idx += n
             else:
                 x = np.array([
@@ -934,14 +935,14 @@ class PhotonReaction(EqualityMixin):
                     3.6, 3.8, 4.0, 4.2, 4.4, 4.6, 4.8, 5.0, 5.2, 5.4, 5.6,
                     5.8, 6.0])
                 n = x.size
-            ff = ace.xss[idx+n : idx+2*n]
+            ff = ace.xss[idx+n : idx+2*n].copy()
             rx.scattering_factor = Tabulated1D(x, ff)
 
         elif mt == 504:
             idx = ace.jxs[2]
             if new_format:
                 n = (ace.jxs[3] - ace.jxs[2]) // 2
-                x = ace.xss[idx : idx+n]
+                x = ace.xss[idx : idx+n].copy()
                 idx += n
             else:
                 x = np.array([
@@ -949,7 +950,7 @@ class PhotonReaction(EqualityMixin):
                     0.7, 0.8, 0.9, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0
                 ])
                 n = x.size
-            ff = ace.xss[idx : idx+n]
+            ff = ace.xss[idx : idx+n].copy()
             rx.scattering_factor = Tabulated1D(x, ff)
 
         return rx
diff --git a/ASAPy/data/thermal.py b/ASAPy/data/thermal.py
index fbe3942..11cacbc 100644
--- a/ASAPy/data/thermal.py
+++ b/ASAPy/data/thermal.py
@@ -492,7 +492,7 @@ class ThermalScattering(EqualityMixin):
         idx = ace.jxs[1]
         n_energy = int(ace.xss[idx])
         energy = ace.xss[idx+1 : idx+1+n_energy]*EV_PER_MEV
-        xs = ace.xss[idx+1+n_energy : idx+1+2*n_energy]
+        xs = ace.xss[idx+1+n_energy : idx+1+2*n_energy].copy()
         table.inelastic_xs[temperatures[0]] = Tabulated1D(energy, xs)
 
         if ace.nxs[7] == 0:
@@ -513,7 +513,7 @@ class ThermalScattering(EqualityMixin):
                 (n_energy, n_energy_out)
 
             table.inelastic_mu_out[temperatures[0]] = \
-                ace.xss[idx:idx + n_energy * n_energy_out * (n_mu + 2)]
+                ace.xss[idx:idx + n_energy * n_energy_out * (n_mu + 2)].copy()
             table.inelastic_mu_out[temperatures[0]].shape = \
                 (n_energy, n_energy_out, n_mu+2)
             table.inelastic_mu_out[temperatures[0]] = \
@@ -535,7 +535,7 @@ class ThermalScattering(EqualityMixin):
                 p = ace.xss[idx + 2:idx + 2 + n_energy_out[i]*(n_mu + 3):
                             n_mu + 3]/EV_PER_MEV
                 c = ace.xss[idx + 3:idx + 3 + n_energy_out[i]*(n_mu + 3):
-                            n_mu + 3]
+                            n_mu + 3].copy()
                 eout_i = Tabular(e, p, 'linear-linear', ignore_negative=True)
                 eout_i.c = c
 
@@ -543,7 +543,7 @@ class ThermalScattering(EqualityMixin):
                 # (incoming, outgoing) energy pair
                 mu_i = []
                 for j in range(n_energy_out[i]):
-                    mu = ace.xss[idx + 4:idx + 4 + n_mu]
+                    mu = ace.xss[idx + 4:idx + 4 + n_mu].copy()
                     p_mu = 1. / n_mu * np.ones(n_mu)
                     mu_ij = Discrete(mu, p_mu)
                     mu_ij.c = np.cumsum(p_mu)
@@ -566,7 +566,7 @@ class ThermalScattering(EqualityMixin):
         if idx != 0:
             n_energy = int(ace.xss[idx])
             energy = ace.xss[idx + 1: idx + 1 + n_energy]*EV_PER_MEV
-            P = ace.xss[idx + 1 + n_energy: idx + 1 + 2 * n_energy]
+            P = ace.xss[idx + 1 + n_energy: idx + 1 + 2 * n_energy].copy()
 
             if ace.nxs[5] == 4:
                 # Coherent elastic
@@ -583,7 +583,7 @@ class ThermalScattering(EqualityMixin):
                 assert n_mu > 0
                 idx = ace.jxs[6]
                 table.elastic_mu_out[temperatures[0]] = \
-                    ace.xss[idx:idx + n_energy * n_mu]
+                    ace.xss[idx:idx + n_energy * n_mu].copy()
                 table.elastic_mu_out[temperatures[0]].shape = \
                     (n_energy, n_mu)
 
-- 
2.43.0


From a04b1a3513b19eead68bed6771bb616799ce8868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:36 +0000
Subject: [PATCH 096/104] fix: photon data objects hold their own copy of the
 library data

---
 ASAPy/data/photon.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ASAPy/data/photon.py b/ASAPy/data/photon.py
index b2c8af4..d3caf0d 100644
--- a/ASAPy/data/photon.py
+++ b/ASAPy/data/photon.py
@@ -582,10 +582,11 @@ class IncidentPhoton(EqualityMixin):
 
         # Add Compton profile data
         pz = _COMPTON_PROFILES['pz']
-        profile = _COMPTON_PROFILES[Z]
+        profile = deepcopy(_COMPTON_PROFILES[Z])
         data.compton_profiles['num_electrons'] = profile['num_electrons']
         data.compton_profiles['binding_energy'] = profile['binding_energy']
-        data.compton_profiles['J'] = [Tabulated1D(pz, J_k) for J_k in profile['J']]
+        data.compton_profiles['J'] = [Tabulated1D(pz.copy(), J_k)
+                                      for J_k in profile['J']]
 
         # Load stopping power data if it has not yet been loaded
         if not _STOPPING_POWERS:
@@ -605,8 +606,8 @@ class IncidentPhoton(EqualityMixin):
 
         # Add stopping power data
         if Z < 99:
-            data.stopping_powers['energy'] = _STOPPING_POWERS['energy']
-            data.stopping_powers.update(_STOPPING_POWERS[Z])
+            data.stopping_powers['energy'] = _STOPPING_POWERS['energy'].copy()
+            data.stopping_powers.update(deepcopy(_STOPPING_POWERS[Z]))
 
         # Load bremsstrahlung data if it has not yet been loaded
         if not _BREMSSTRAHLUNG:
@@ -653,9 +654,9 @@ class IncidentPhoton(EqualityMixin):
                 _BREMSSTRAHLUNG[i] = {'dcs': dcs}
 
         # Add bremsstrahlung DCS data
-        data.bremsstrahlung['electron_energy'] = _BREMSSTRAHLUNG['electron_energy']
-        data.bremsstrahlung['photon_energy'] = _BREMSSTRAHLUNG['photon_energy']
-        data.bremsstrahlung['dcs'] = _BREMSSTRAHLUNG[Z]['dcs']
+        data.bremsstrahlung['electron_energy'] = _BREMSSTRAHLUNG['electron_energy'].copy()
+        data.bremsstrahlung['photon_energy'] = _BREMSSTRAHLUNG['photon_energy'].copy()
+        data.bremsstrahlung['dcs'] = _BREMSSTRAHLUNG[Z]['dcs'].copy()
 
         return data
 
-- 
2.43.0


From f5aac70a8ab6b293fd2a23bf100f921aea1071aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:45 +0000
Subject: [PATCH 097/104] fix: records of File 32 that are not imported no
 longer shift the ranges after them

---
 ASAPy/data/resonance_covariance.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 9f2b8aa..167ad63 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -126,6 +126,12 @@ class ResonanceCovariances(Resonances):
                            'values for the unresolved region not imported.'
                     warnings.warn(warn)
 
+                    # Skip the records of the range: average parameters of
+                    # each l-value, then the relative covariance matrix
+                    items = endf.get_cont_record(file_obj)
+                    for _ in range(items[4] + 1):
+                        endf.get_list_record(file_obj)
+
                 i_range += 1
 
         return cls(ranges)
@@ -432,6 +438,10 @@ class MultiLevelBreitWignerCovariance(ResonanceCovarianceRange):
                              constant_values=0)
                 cov[start:, start:] = block
 
+            # Long range covariances are not represented, skip their records
+            for i in range(num_long_range):
+                endf.get_list_record(file_obj)
+
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
         elif lcomp == 2:
@@ -679,6 +689,10 @@ class ReichMooreCovariance(ResonanceCovarianceRange):
                              constant_values=0)
                 cov[start:, start:] = block
 
+            # Long range covariances are not represented, skip their records
+            for i in range(num_long_range):
+                endf.get_list_record(file_obj)
+
         # Compact format - Resonances and individual uncertainties followed by
         # compact correlations
         elif lcomp == 2:
-- 
2.43.0


From 944dac3142cab8c3359291902d0e82c6e5e84af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 098/104] fix: prepare resonances by position so that a subset
 of the parameters can be reconstructed

---
 ASAPy/data/resonance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index e376b2b..319f16a 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -404,7 +404,7 @@ class MultiLevelBreitWigner(ResonanceRange):
         return mlbw
 
     def _prepare_resonances(self):
-        df = self.parameters.copy()
+        df = self.parameters.reset_index(drop=True)
 
         # Penetration and shift factors
         p = np.zeros(len(df))
@@ -666,7 +666,7 @@ class ReichMoore(ResonanceRange):
         return rm
 
     def _prepare_resonances(self):
-        df = self.parameters.copy()
+        df = self.parameters.reset_index(drop=True)
 
         # Penetration and shift factors
         p = np.zeros(len(df))
-- 
2.43.0


From 969da1a8c0cacc8da86e2ef0c034871cd1c0eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:37 +0000
Subject: [PATCH 099/104] fix: a subset of a resonance range is reconstructed
 from its own parameters

---
 ASAPy/data/resonance_covariance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ASAPy/data/resonance_covariance.py b/ASAPy/data/resonance_covariance.py
index 167ad63..e523067 100644
--- a/ASAPy/data/resonance_covariance.py
+++ b/ASAPy/data/resonance_covariance.py
@@ -216,7 +216,9 @@ class ResonanceCovarianceRange:
         tri_indices = np.triu_indices(sub_cov_dim)
         cov_subset[tri_indices] = cov_subset_vals
 
+        # A copy is prepared anew for the parameters that are left
         file2params = self.file2res.parameters
+        res_cov_range.file2res = copy.copy(res_cov_range.file2res)
         res_cov_range.file2res.parameters = file2params[
             file2params[parameter_str].between(*bounds)]
         res_cov_range.covariance = cov_subset
-- 
2.43.0


From 30a66ecd9f93a0491a453584ff7f83843505b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:16 +0000
Subject: [PATCH 100/104] fix: resonance cross sections at integer energies are
 not truncated to integers

---
 ASAPy/data/resonance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/resonance.py b/ASAPy/data/resonance.py
index 319f16a..91e3075 100644
--- a/ASAPy/data/resonance.py
+++ b/ASAPy/data/resonance.py
@@ -234,9 +234,9 @@ class ResonanceRange(object):
             self._prepare_resonances()
 
         if isinstance(energies, Iterable):
-            elastic = np.zeros_like(energies)
-            capture = np.zeros_like(energies)
-            fission = np.zeros_like(energies)
+            elastic = np.zeros_like(energies, dtype=float)
+            capture = np.zeros_like(energies, dtype=float)
+            fission = np.zeros_like(energies, dtype=float)
 
             for i, E in enumerate(energies):
                 xse, xsg, xsf = self._reconstruct(self, E)
-- 
2.43.0


From b637acd536ab7934397c6770f503b501da0bdae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:52 +0000
Subject: [PATCH 101/104] fix: HDF5 import of a mixture whose discrete
 probabilities round above one

from_ace limits the summed probability of the discrete lines to one, but
from_hdf5 took the stored cumulative value as it was, leaving a negative
probability for the continuous part, which Mixture refuses.
---
 ASAPy/data/correlated.py          | 2 +-
 ASAPy/data/energy_distribution.py | 2 +-
 ASAPy/data/kalbach_mann.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ASAPy/data/correlated.py b/ASAPy/data/correlated.py
index 0d6d576..02f266e 100644
--- a/ASAPy/data/correlated.py
+++ b/ASAPy/data/correlated.py
@@ -238,7 +238,7 @@ class CorrelatedAngleEnergy(AngleEnergy):
                 p = dset_eout[1, offset_e:offset_e+m]
                 eout_discrete = Discrete(x, p)
                 eout_discrete.c = dset_eout[2, offset_e:offset_e+m]
-                p_discrete = eout_discrete.c[-1]
+                p_discrete = min(eout_discrete.c[-1], 1.0)
 
             # Create continuous distribution
             if m < n:
diff --git a/ASAPy/data/energy_distribution.py b/ASAPy/data/energy_distribution.py
index 762be81..07687b5 100644
--- a/ASAPy/data/energy_distribution.py
+++ b/ASAPy/data/energy_distribution.py
@@ -1167,7 +1167,7 @@ class ContinuousTabular(EnergyDistribution):
             if m > 0:
                 eout_discrete = Discrete(data[0, j:j+m], data[1, j:j+m])
                 eout_discrete.c = data[2, j:j+m]
-                p_discrete = eout_discrete.c[-1]
+                p_discrete = min(eout_discrete.c[-1], 1.0)
 
             # Create continuous distribution
             if m < n:
diff --git a/ASAPy/data/kalbach_mann.py b/ASAPy/data/kalbach_mann.py
index c94e613..2a3103d 100644
--- a/ASAPy/data/kalbach_mann.py
+++ b/ASAPy/data/kalbach_mann.py
@@ -228,7 +228,7 @@ class KalbachMann(angle_energy.AngleEnergy):
             if m > 0:
                 eout_discrete = Discrete(data[0, j:j+m], data[1, j:j+m])
                 eout_discrete.c = data[2, j:j+m]
-                p_discrete = eout_discrete.c[-1]
+                p_discrete = min(eout_discrete.c[-1], 1.0)
 
             # Create continuous distribution
             if m < n:
-- 
2.43.0


From 006b4f3c7371d4f0a1350e75e5d2562be7e1b837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:30 +0000
Subject: [PATCH 102/104] fix: plots of a covariance of a single group

np.cov and np.corrcoef give a number instead of a matrix for one group, and
there is no second group to take the lower bound from, so --make_plots
ended the program before anything was sampled.
---
 ASAPy/XsecSampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 3cbb754..5c106ea 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -491,7 +491,7 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
     y_for_plot = list(xsec['s.d.(1)'] ** 2)
     y_for_plot.append(y_for_plot[-1])
 
-    y2_for_plot = list(np.diag(np.cov(sample_df_full_vals)))
+    y2_for_plot = list(np.diag(np.atleast_2d(np.cov(sample_df_full_vals))))
     y2_for_plot.append(y2_for_plot[-1])
 
     fig, ax = plt.subplots()
@@ -553,7 +553,7 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
 
     # make sure the elow isn't 0 so if we log the data it doesn't break..
     if xsec['e low'].values[-1] == 0:
-        elow_to_append = xsec['e low'].values[-2] / 2
+        elow_to_append = xsec['e high'].values[-1] / 2
     else:
         elow_to_append = xsec['e low'].values[-1]
 
@@ -565,9 +565,9 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
 
     with np.errstate(all='ignore'):
         if corr_rel_diff:
-            corr_for_plot2 = np.abs(np.corrcoef(sample_df_full_vals) - corr.values)
+            corr_for_plot2 = np.abs(np.atleast_2d(np.corrcoef(sample_df_full_vals)) - corr.values)
         else:
-            corr_for_plot2 = np.corrcoef(sample_df_full_vals)
+            corr_for_plot2 = np.atleast_2d(np.corrcoef(sample_df_full_vals))
             corr_for_plot2[np.isnan(corr_for_plot2)] = 0
 
             # if the original corr was 0 on the diag, the sampled distro was not actually sampled so lets not plot that
-- 
2.43.0


From 1d73e73694b28e0a28e0a2be8befefd485f701dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:30 +0000
Subject: [PATCH 103/104] fix: colour range of the correlation plots leaves out
 the stored correlations

The minimum and maximum of the stored correlations were exchanged, and groups
without samples (nan) kept the sampled values from widening the range.
---
 ASAPy/XsecSampler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index 5c106ea..cbc57a9 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -579,14 +579,14 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
         vmin = -1.0
         vmax = 1.0
     else:
-        vmin = np.amax(corr.values)
-        vmax = np.amin(corr.values)
+        vmin = np.amin(corr.values)
+        vmax = np.amax(corr.values)
 
-    if np.amax(corr_for_plot2) > vmax:
-        vmax = np.amax(corr_for_plot2)
+    if np.nanmax(corr_for_plot2) > vmax:
+        vmax = np.nanmax(corr_for_plot2)
 
-    if np.amin(corr_for_plot2) < vmin:
-        vmin = np.amin(corr_for_plot2)
+    if np.nanmin(corr_for_plot2) < vmin:
+        vmin = np.nanmin(corr_for_plot2)
 
     corr_flipped_for_plot = np.flipud(np.fliplr(corr.values))
     im = ax[0].pcolormesh(X, Y, corr_flipped_for_plot, vmin=vmin, vmax=vmax, cmap=cm_RdGr)
-- 
2.43.0


From 92f89e3b170711c5a810795fb9ca2245b967069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:59 +0000
Subject: [PATCH 104/104] fix: plots of a reaction whose cross section is zero
 everywhere

max() of the empty array of nonzero values ended the program.
---
 ASAPy/XsecSampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ASAPy/XsecSampler.py b/ASAPy/XsecSampler.py
index cbc57a9..2d65c65 100644
--- a/ASAPy/XsecSampler.py
+++ b/ASAPy/XsecSampler.py
@@ -534,7 +534,7 @@ def plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full_vals, zai
     # to see if we should log, check only nonzero values
     # let it be ugly if zome zeros found?
     nonzero_st = st[np.nonzero(st)]
-    if max(nonzero_st)/min(nonzero_st) > 1000:
+    if len(nonzero_st) > 0 and max(nonzero_st)/min(nonzero_st) > 1000:
         set_log_scale(ax, log_x, True)
     else:
         set_log_scale(ax, log_x, False)
-- 
2.43.0

