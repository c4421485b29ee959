From d6a34c96eaeb3c0b6d87a823315d8c6cebbadac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 1/9] fix: missing control matrix/vector is NaN also for
 integer data

np.full_like kept the integer dtype of the reference array, turning the NaN
marker into INT_MIN, so omitting B or U with integer A or Z gave garbage
estimates instead of no control.
---
 src/kalmankit/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/utils.py b/src/kalmankit/utils.py
index f386b5b..e9c1839 100644
--- a/src/kalmankit/utils.py
+++ b/src/kalmankit/utils.py
@@ -30,7 +30,7 @@ def check_none_and_broadcast(
         Array with np.nan values or original array if is not None.
     """
     if arr is None:
-        arr = np.full_like(broad_to, np.nan)
+        arr = np.full_like(broad_to, np.nan, dtype=float)
 
     return arr
 
-- 
2.43.0


From d2cea5b5489a9cff85970c1d58f7bdd356895cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 2/9] fix: accept None as control in KalmanFilter.predict as
 documented

predict documents that Bk and uk can be None to ignore the control part, but
np.isnan(None) raised TypeError.
---
 src/kalmankit/standard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index c930a92..328ea6a 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -176,7 +176,7 @@ class KalmanFilter:
             Prior value of state covariance.
         """
         # project state ahead
-        if is_nan_all(Bk) or is_nan_all(uk):
+        if Bk is None or uk is None or is_nan_all(Bk) or is_nan_all(uk):
             xk_prior = Ak @ xk
         else:
             xk_prior = Ak @ xk + Bk @ uk
-- 
2.43.0


From 010e7f84168d1387aaa0a4e339d76ec6e5434258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 3/9] fix: smoothing an empty record returns empty results like
 filtering does

smooth() raised IndexError when the record had no observation.
---
 src/kalmankit/extended.py | 4 ++--
 src/kalmankit/standard.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kalmankit/extended.py b/src/kalmankit/extended.py
index f6a84ea..e96e4bb 100644
--- a/src/kalmankit/extended.py
+++ b/src/kalmankit/extended.py
@@ -348,8 +348,8 @@ class ExtendedKalmanFilter:
         Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))
 
         # smooth initialization
-        xk_smooth[-1] = x_est[-1]
-        Pk_smooth[-1] = P_est[-1]
+        xk_smooth[-1:] = x_est[-1:]
+        Pk_smooth[-1:] = P_est[-1:]
 
         # to avoid the filter failing
         U = check_none_and_broadcast(U, Z)
diff --git a/src/kalmankit/standard.py b/src/kalmankit/standard.py
index 328ea6a..9e171b6 100644
--- a/src/kalmankit/standard.py
+++ b/src/kalmankit/standard.py
@@ -349,8 +349,8 @@ class KalmanFilter:
         Pk_smooth = np.zeros((len(Z), self.state_size, self.state_size))
 
         # smooth initialization
-        xk_smooth[-1] = x_est[-1]
-        Pk_smooth[-1] = P_est[-1]
+        xk_smooth[-1:] = x_est[-1:]
+        Pk_smooth[-1:] = P_est[-1:]
 
         # to avoid the filter failing
         U = check_none_and_broadcast(U, Z)
-- 
2.43.0


From e96af276a59f87041510f0d64eb5c6ca6af8a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 4/9] fix: importing survives a failing git rev-list in an
 untagged checkout

---
 src/kalmankit/_version.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index f60db0f..ce010d4 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -404,6 +404,8 @@ def git_pieces_from_vcs(
         # HEX: no tags
         pieces["closest-tag"] = None
         out, rc = runner(GITS, ["rev-list", "HEAD", "--left-right"], cwd=root)
+        if out is None:
+            raise NotThisMethod("'git rev-list' failed")
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-- 
2.43.0


From 823042e4e5b74bace50e28dd308b7eb0e95dbfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 5/9] fix: importing survives a failing or empty git show

---
 src/kalmankit/_version.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index ce010d4..27e445f 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -409,13 +409,13 @@ def git_pieces_from_vcs(
         pieces["distance"] = len(out.split())  # total number of commits
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)[
-        0
-    ].strip()
-    # Use only the last line.  Previous lines may contain GPG signature
-    # information.
-    date = date.splitlines()[-1]
-    pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
+    date, rc = runner(GITS, ["show", "-s", "--format=%ci", "HEAD"], cwd=root)
+    pieces["date"] = None
+    if date:
+        # Use only the last line.  Previous lines may contain GPG signature
+        # information.
+        date = date.splitlines()[-1]
+        pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
 
-- 
2.43.0


From 5aea5445a43c66eef6a963b09481f432301816df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 6/9] fix: importing survives git output that is not text

---
 src/kalmankit/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index 27e445f..66e2de5 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -121,7 +121,7 @@ def run_command(
         if verbose:
             print("unable to find command, tried %s" % (commands,))
         return None, None
-    stdout = process.communicate()[0].strip().decode()
+    stdout = process.communicate()[0].strip().decode(errors="replace")
     if process.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
-- 
2.43.0


From c0660c13c97050b88e108959bac1deef697af19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 7/9] fix: repository variables inherited from git hooks do not
 change the version

---
 src/kalmankit/_version.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index 66e2de5..f5b82f4 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -281,11 +281,24 @@ def git_pieces_from_vcs(
     if sys.platform == "win32":
         GITS = ["git.cmd", "git.exe"]
 
-    # GIT_DIR can interfere with correct operation of Versioneer.
-    # It may be intended to be passed to the Versioneer-versioned project,
-    # but that should not change where we get our version from.
+    # GIT_DIR and its relatives (exported to hooks, for instance) can interfere
+    # with correct operation of Versioneer. They may be intended to be passed
+    # to the Versioneer-versioned project, but that should not change where we
+    # get our version from.
     env = os.environ.copy()
-    env.pop("GIT_DIR", None)
+    for name in (
+        "GIT_DIR",
+        "GIT_WORK_TREE",
+        "GIT_INDEX_FILE",
+        "GIT_COMMON_DIR",
+        "GIT_OBJECT_DIRECTORY",
+        "GIT_ALTERNATE_OBJECT_DIRECTORIES",
+        "GIT_SHALLOW_FILE",
+        "GIT_GRAFT_FILE",
+        "GIT_NAMESPACE",
+        "GIT_PREFIX",
+    ):
+        env.pop(name, None)
     runner = functools.partial(runner, env=env)
 
     _, rc = runner(
-- 
2.43.0


From b90253e5c327c299ef426dbce5c503f643e29a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 8/9] fix: a copy inside the checkout of another project does
 not report that project's version

---
 src/kalmankit/_version.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index f5b82f4..3aab0c8 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -301,13 +301,24 @@ def git_pieces_from_vcs(
         env.pop(name, None)
     runner = functools.partial(runner, env=env)
 
-    _, rc = runner(
-        GITS, ["rev-parse", "--git-dir"], cwd=root, hide_stderr=not verbose
+    toplevel, rc = runner(
+        GITS,
+        ["rev-parse", "--show-toplevel"],
+        cwd=root,
+        hide_stderr=not verbose,
     )
     if rc != 0:
         if verbose:
             print("Directory %s not under git control" % root)
-        raise NotThisMethod("'git rev-parse --git-dir' returned error")
+        raise NotThisMethod("'git rev-parse --show-toplevel' returned error")
+    # A copy of this project somewhere inside the checkout of another one: the
+    # tags found there say nothing about our version.
+    try:
+        is_toplevel = os.path.samefile(toplevel or "", root)
+    except (OSError, ValueError):
+        is_toplevel = False
+    if not is_toplevel:
+        raise NotThisMethod("root is not the top of a git checkout")
 
     # if there is a tag matching tag_prefix, this yields TAG-NUM-gHEX[-dirty]
     # if there isn't one, this yields HEX[-dirty] (no NUM)
-- 
2.43.0


From 5b22b125988dec223f085d4d7bbf3c9a5dad67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 9/9] fix: a directory named like the bare prefix does not give
 an empty version

---
 src/kalmankit/_version.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kalmankit/_version.py b/src/kalmankit/_version.py
index 3aab0c8..79632f1 100644
--- a/src/kalmankit/_version.py
+++ b/src/kalmankit/_version.py
@@ -145,7 +145,10 @@ def versions_from_parentdir(
 
     for _ in range(3):
         dirname = os.path.basename(root)
-        if dirname.startswith(parentdir_prefix):
+        if (
+            dirname.startswith(parentdir_prefix)
+            and dirname != parentdir_prefix
+        ):
             return {
                 "version": dirname[len(parentdir_prefix) :],
                 "full-revisionid": None,
-- 
2.43.0

