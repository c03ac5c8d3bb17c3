From 5b9d921862b455cff41439141ff77a6d685bde3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 01/50] fix: create a working project script

---
 src/eprempy/project.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e373832..fcc0433 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -790,13 +790,21 @@ class Interface:
             return
         with (DIRECTORY / '_project_main.py').open('r') as rp:
             lines = rp.readlines()
-        payload = lines.copy()
-        import_line = lines.index(f'import {__name__}\n')
+        # The script runs outside of this package, so it can't use relative
+        # imports.
+        relative = 'from . import'
+        payload = [
+            line.replace(relative, f'from {__package__} import', 1)
+            if line.startswith(relative) else line
+            for line in lines
+        ]
+        import_line = next(
+            i for i, line in enumerate(lines) if line.startswith(relative)
+        )
         path_spec = (
-            "import pathlib\n"
             "import sys\n"
             "\n"
-            f"sys.path.append({str(DIRECTORY)!r})\n"
+            f"sys.path.append({str(DIRECTORY.parent)!r})\n"
             "\n"
         )
         payload.insert(import_line, path_spec)
@@ -807,7 +815,7 @@ class Interface:
             wp.write("\n")
         if _HAVE_ISORT:
             isort.file(path, quiet=True)
-        sys.path.append(attrs.root)
+        sys.path.append(str(attrs.root))
 
     def show(self: InterfaceType, *runs: str):
         """Display information about this project or the named run(s).
-- 
2.43.0


From 676a9f3001acd5e304f8b65e77d82c02cc7b4d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 02/50] fix: write project files so that they are never
 incomplete

---
 src/eprempy/paths.py   | 24 ++++++++++++++++++++++++
 src/eprempy/project.py | 32 ++++++++++++++++++++------------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 140a638..aa7362b 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -1,3 +1,4 @@
+import contextlib
 import os
 import pathlib
 import shutil
@@ -43,6 +44,29 @@ def localize(p: PathLike, normalized: bool=False):
     return pathlib.Path(path.name)
 
 
+def write_text(p: PathLike, text: str):
+    """Write `text` to a file so that the file is never incomplete.
+
+    This function writes to a temporary file in the same directory, then
+    replaces the target file. If anything goes wrong (including a crash), the
+    target file will have its previous contents, or will still not exist.
+    """
+    path = normalize(p)
+    temporary = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        with temporary.open('w') as fp:
+            fp.write(text)
+            fp.flush()
+            os.fsync(fp.fileno())
+        if path.exists():
+            shutil.copymode(path, temporary)
+        os.replace(temporary, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            temporary.unlink()
+        raise
+
+
 def locate(
     name: str,
     path: pathlib.Path,
diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index fcc0433..7790f00 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -235,8 +235,10 @@ class RunLog(collections.abc.Mapping):
             k: str(v) if isinstance(v, pathlib.Path) else v
             for k, v in contents.items()
         }
-        with self.path.open('w') as fp:
-            json.dump(payload, fp, indent=4, sort_keys=True)
+        paths.write_text(
+            self.path,
+            json.dumps(payload, indent=4, sort_keys=True),
+        )
 
     @property
     def name(self):
@@ -761,8 +763,10 @@ class Interface:
         """Set attributes on a new project."""
         attrs = Attrs(path, **options)
         attrs.root.mkdir(parents=True)
-        with (path / '.eprem.conf').open('w') as fp:
-            json.dump(attrs.serial, fp, indent=4, sort_keys=True)
+        paths.write_text(
+            path / '.eprem.conf',
+            json.dumps(attrs.serial, indent=4, sort_keys=True),
+        )
         return attrs
 
     def _restore_project(self, path: pathlib.Path):
@@ -808,13 +812,15 @@ class Interface:
             "\n"
         )
         payload.insert(import_line, path_spec)
-        with path.open('w') as wp:
-            wp.writelines(payload)
-            wp.write("if __name__ == '__main__':\n")
-            wp.write("    cli.run()\n")
-            wp.write("\n")
+        payload.extend([
+            "if __name__ == '__main__':\n",
+            "    cli.run()\n",
+            "\n",
+        ])
+        script = ''.join(payload)
         if _HAVE_ISORT:
-            isort.file(path, quiet=True)
+            script = isort.code(script)
+        paths.write_text(path, script)
         sys.path.append(str(attrs.root))
 
     def show(self: InterfaceType, *runs: str):
@@ -902,8 +908,10 @@ class Interface:
             current = dict(json.load(fp))
         updated = {k: v for k, v in current.items() if k != source}
         updated['root'] = target
-        with metadata.open('w') as fp:
-            json.dump(updated, fp, indent=4, sort_keys=True)
+        paths.write_text(
+            metadata,
+            json.dumps(updated, indent=4, sort_keys=True),
+        )
         with contextlib.suppress(ValueError):
             sys.path.remove(source)
         sys.path.append(target)
-- 
2.43.0


From 108734f34ec6c0af830b72b97902af5baa8fb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 03/50] fix: update all run paths in the log when renaming a
 project

---
 src/eprempy/project.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 7790f00..bbb9f90 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -117,10 +117,20 @@ class RunLog(collections.abc.Mapping):
             raise paths.PathTypeError("The new path must exist") from None
         if not new.is_dir():
             raise paths.PathTypeError("Cannot rename log file") from None
+        old = self.path.parent
         self._path = new / self.name
-        source = str(self.path.parent)
-        for key in self:
-            self.mv(key, key.replace(source, str(new)))
+        return self.relocate(old, new)
+
+    def relocate(self, source: paths.PathLike, target: paths.PathLike):
+        """Replace the `source` directory with `target` in all keys."""
+        def update(key: str):
+            with contextlib.suppress(ValueError):
+                return str(target / pathlib.Path(key).relative_to(source))
+            return key
+        contents = self._asdict
+        updated = {update(k): v for k, v in contents.items()}
+        if updated.keys() != contents.keys():
+            self.dump(updated)
         return self
 
     @typing.overload
-- 
2.43.0


From 15c3a2931d2ce7b83e7159107eb4cd79f7661256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 04/50] fix: allow renaming a run that has no log entry

---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index bbb9f90..5a88595 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1025,7 +1025,8 @@ class Interface:
                 print(f"Nothing to rename for {source!r}")
             return
         for (run, new) in pairs.errors(force=(not errors), silent=silent):
-            self.log.mv(run, new)
+            if str(run) in self.log:
+                self.log.mv(run, new)
             if not silent:
                 branch = self._get_branch_name(run)
                 base = f"Renamed {source!r} to {target!r}"
-- 
2.43.0


From c68631417aed0a9eea9e4fafc99dbf6651cbd72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 05/50] fix: execute runs with the project's inputs directory
 and config file

---
 src/eprempy/project.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 5a88595..57fe4b8 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -9,6 +9,7 @@ import datetime
 import json
 import os
 import pathlib
+import shlex
 import shutil
 import subprocess
 import sys
@@ -966,7 +967,7 @@ class Interface:
         silent: bool=False,
     ) -> None:
         """Create a single run."""
-        prjcfg = self.root / 'inputs' / config
+        prjcfg = self._attrs.inputs / config
         inputs = prjcfg if prjcfg.is_file() else paths.fullpath(config, strict=True)
         shutil.copy(inputs, path / self._attrs.config)
         branch = path.parent.parent
@@ -974,8 +975,10 @@ class Interface:
         eprem = paths.locate('eprem', branch, environment or {})
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
-            f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} eprem.cfg"
+            f"{shlex.quote(str(mpirun))}"
+            " --mca btl_base_warn_component_unused 0 "
+            f"-n {nproc or 1} {shlex.quote(str(eprem))}"
+            f" {shlex.quote(self._attrs.config)}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From de70db765bc5eb0247c38aabacd6e37441a3c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 06/50] fix: use the bare name of a program that is not on the
 search path

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index aa7362b..30718c9 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -84,7 +84,7 @@ def locate(
     """
     location = environment.get(name) or path / name
     it = normalize(os.path.realpath(location))
-    return it if it.exists() else pathlib.Path(shutil.which(name))
+    return it if it.exists() else pathlib.Path(shutil.which(name) or name)
 
 
 class PathSet(etc.InstanceSet):
-- 
2.43.0


From a5af2e95015307e9eeab5d8af1ad47bdbf63a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 07/50] fix: update the name and attributes of a renamed
 project

---
 src/eprempy/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 57fe4b8..17dc8a3 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -896,6 +896,8 @@ class Interface:
                 print(f"Overwriting {new}")
         # Update the runtime paths on disk.
         self._directories.update(root=new)
+        self._attrs = Attrs(new, **self._attrs.options)
+        self._name = None
         # Update the log of runtime paths.
         self.log.update_directory(new)
         # Update the project metadata.
-- 
2.43.0


From 75e604a587dd763d92bdfb0744a6d473faef3e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 08/50] fix: open a project that has moved, or was only
 partially renamed

---
 src/eprempy/project.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 17dc8a3..6f8ca41 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -726,6 +726,7 @@ class Interface:
         self._name = None
         self._root = None
         self._log = self._get_log(attrs)
+        self._relocate(attrs)
         self._directories = RunPaths(attrs.root, attrs.branches, attrs.rundir)
         self._setup_cli(attrs)
         attrs.inputs.mkdir(parents=True, exist_ok=True)
@@ -784,8 +785,19 @@ class Interface:
         """Load attributes of an existing project."""
         with (path / '.eprem.conf').open('r') as fp:
             old = dict(json.load(fp))
-        here = old.pop('root')
-        return Attrs(here, **old)
+        # Use the actual location of this project in case it has moved.
+        old.pop('root')
+        return Attrs(path, **old)
+
+    def _relocate(self, attrs: Attrs):
+        """Update the log and metadata if this project has moved."""
+        metadata = attrs.root / '.eprem.conf'
+        with metadata.open('r') as fp:
+            old = json.load(fp)['root']
+        new = str(attrs.root)
+        if old != new:
+            self.log.relocate(old, attrs.root)
+            self._update_metadata(old, new, metadata)
 
     def _get_log(self, attrs: Attrs):
         """Create or retrieve the log of runs."""
-- 
2.43.0


From 41f9cc8a0fe4c174697ed49d4e85348405efa1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 09/50] fix: never create, rename, or remove anything outside
 of the run directories

---
 src/eprempy/project.py | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 6f8ca41..eacd3bf 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -430,8 +430,12 @@ class RunPaths(collections.abc.Collection):
 
     def _mkdir(self, target: paths.PathLike):
         """Create the target run if safe to do so."""
-        this = paths.normalize(target)
-        if this.exists():
+        this = pathlib.Path(target)
+        if not self._isrun(this):
+            return paths.PathOperationError(
+                f"Cannot create {str(this)!r}: not a valid run"
+            )
+        if os.path.lexists(this):
             return paths.PathOperationError(
                 f"Cannot create {str(this)!r}: already exists"
             )
@@ -450,8 +454,12 @@ class RunPaths(collections.abc.Collection):
 
     def _mv(self, source: paths.PathLike, target: paths.PathLike):
         """Rename `source` to `target` only if safe to do so."""
-        this = paths.normalize(source)
-        that = paths.normalize(target)
+        this = pathlib.Path(source)
+        that = pathlib.Path(target)
+        if not (self._isrun(this) and self._isrun(that)):
+            return paths.PathOperationError(
+                f"Cannot rename {this} to {that}: not a valid run"
+            )
         if not this.exists():
             return paths.PathOperationError(
                 f"Cannot rename {this}: does not exist"
@@ -460,7 +468,7 @@ class RunPaths(collections.abc.Collection):
             return paths.PathOperationError(
                 f"Cannot rename {this}: not a directory"
             )
-        if that.exists():
+        if os.path.lexists(that):
             return paths.PathOperationError(
                 f"Renaming {this.name!r} to {that.name!r} would "
                 f"overwrite {that}."
@@ -481,8 +489,12 @@ class RunPaths(collections.abc.Collection):
 
     def _rm(self, target: paths.PathLike):
         """Remove the target path only if safe to do so."""
-        this = paths.normalize(target)
-        if not this.exists():
+        this = pathlib.Path(target)
+        if not self._isrun(this):
+            return paths.PathOperationError(
+                f"Cannot remove {this}: not a valid run"
+            )
+        if not os.path.lexists(this):
             return paths.PathOperationError(
                 f"Cannot remove {this}: does not exist"
             )
@@ -490,9 +502,16 @@ class RunPaths(collections.abc.Collection):
             return paths.PathOperationError(
                 f"Cannot remove {this}: not a directory"
             )
-        shutil.rmtree(this)
+        if this.is_symlink():
+            this.unlink()
+        else:
+            shutil.rmtree(this)
         return this
 
+    def _isrun(self, path: pathlib.Path):
+        """True if `path` represents a run in one of the run directories."""
+        return path.parent in self.listing and path.name != '..'
+
     def define(
         self,
         *names: str,
@@ -507,11 +526,11 @@ class RunPaths(collections.abc.Collection):
             Zero or more names of runtime directories to create.
         """
         rundirs = self._get_rundirs(branches)
-        if pattern:
+        if pattern is not None:
             return [
                 path for rundir in rundirs
                 for path in rundir.glob(pattern)
-            ]
+            ] if pattern else []
         if len(names) == 1:
             name = names[0]
             return [rundir / name for rundir in rundirs]
-- 
2.43.0


From acc3ab700b5f60267ba9e9f929ad4f8510e35577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 10/50] fix: do not lose log entries when multiple processes
 update a log

---
 src/eprempy/project.py | 82 +++++++++++++++++++++++++++---------------
 1 file changed, 53 insertions(+), 29 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index eacd3bf..9bcc499 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -15,6 +15,11 @@ import subprocess
 import sys
 import typing
 
+try:
+    import fcntl
+    _HAVE_FCNTL = True
+except ModuleNotFoundError:
+    _HAVE_FCNTL = False
 try:
     import isort
     _HAVE_ISORT = True
@@ -79,7 +84,9 @@ class RunLog(collections.abc.Mapping):
                 ) from None
         else:
             self._path = full
-            self.dump(common)
+            with self._lock():
+                if not full.exists():
+                    self.dump(common)
 
     def __len__(self) -> int:
         """Called for len(self)."""
@@ -128,10 +135,11 @@ class RunLog(collections.abc.Mapping):
             with contextlib.suppress(ValueError):
                 return str(target / pathlib.Path(key).relative_to(source))
             return key
-        contents = self._asdict
-        updated = {update(k): v for k, v in contents.items()}
-        if updated.keys() != contents.keys():
-            self.dump(updated)
+        with self._lock():
+            contents = self._asdict
+            updated = {update(k): v for k, v in contents.items()}
+            if updated.keys() != contents.keys():
+                self.dump(updated)
         return self
 
     @typing.overload
@@ -156,7 +164,6 @@ class RunLog(collections.abc.Mapping):
         *mapping: typing.Mapping,
         **items
     ) -> RunLogType:
-        contents = self._asdict.copy()
         if mapping and items:
             raise TypeError(
                 f"{self.__class__.__qualname__}.create accepts"
@@ -164,8 +171,10 @@ class RunLog(collections.abc.Mapping):
                 ", but not both"
             ) from None
         new = dict(*mapping) or items
-        contents[str(key)] = new
-        self.dump(contents)
+        with self._lock():
+            contents = self._asdict.copy()
+            contents[str(key)] = new
+            self.dump(contents)
         return self
 
     def load(
@@ -175,9 +184,10 @@ class RunLog(collections.abc.Mapping):
         filetype: str=None
     ) -> RunLogType:
         """Create a new entry in this log file from a file."""
-        contents = self._asdict.copy()
-        contents[str(key)] = self._read_from_file(source, filetype)
-        self.dump(contents)
+        with self._lock():
+            contents = self._asdict.copy()
+            contents[str(key)] = self._read_from_file(source, filetype)
+            self.dump(contents)
         return self
 
     def _read_from_file(self, source, filetype):
@@ -203,37 +213,51 @@ class RunLog(collections.abc.Mapping):
 
     def append(self, target: paths.PathLike, key: str, value):
         """Append metadata to `target`."""
-        contents = self._asdict.copy()
         run = str(target)
-        try:
-            record = contents[run]
-        except KeyError as err:
-            raise LogKeyError(
-                f"Cannot append to unknown run {run!r}"
-            ) from err
-        record[key] = value
-        self.dump(contents)
+        with self._lock():
+            contents = self._asdict.copy()
+            try:
+                record = contents[run]
+            except KeyError as err:
+                raise LogKeyError(
+                    f"Cannot append to unknown run {run!r}"
+                ) from err
+            record[key] = value
+            self.dump(contents)
         return self
 
     def mv(self, source: paths.PathLike, target: paths.PathLike):
         """Rename `source` to `target` in this log file."""
         old = str(source)
         new = str(target)
-        if old not in self:
-            raise LogKeyError(
-                f"Cannot rename unknown run {old!r}"
-            ) from None
-        updated = {k: v for k, v in self._asdict.items() if k != old}
-        updated[new] = self._asdict[old]
-        self.dump(updated)
+        with self._lock():
+            contents = self._asdict
+            if old not in contents:
+                raise LogKeyError(
+                    f"Cannot rename unknown run {old!r}"
+                ) from None
+            updated = {k: v for k, v in contents.items() if k != old}
+            updated[new] = contents[old]
+            self.dump(updated)
         return self
 
     def rm(self, target: paths.PathLike):
         """Remove the target run from this log file."""
-        updated = {k: v for k, v in self._asdict.items() if k != str(target)}
-        self.dump(updated)
+        with self._lock():
+            contents = self._asdict
+            updated = {k: v for k, v in contents.items() if k != str(target)}
+            self.dump(updated)
         return self
 
+    @contextlib.contextmanager
+    def _lock(self):
+        """Prevent other processes from modifying this log file."""
+        lock = self.path.with_name(f".{self.name}.lock")
+        with lock.open('a') as fp:
+            if _HAVE_FCNTL:
+                fcntl.flock(fp, fcntl.LOCK_EX)
+            yield
+
     @property
     def _asdict(self) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
         """Internal dictionary representing the current contents."""
-- 
2.43.0


From df228d726af14de30ba17da76cb018d71c420472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 11/50] fix: copy the attributes of a project unless the user
 provides new ones

---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 9bcc499..f92e711 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -790,7 +790,7 @@ class Interface:
             return self._get_attrs(root, **options)
         restored = self._restore_project(paths.normalize(copy))
         copied = restored.options
-        copied.update(options)
+        copied.update({k: v for k, v in options.items() if v is not None})
         return self._get_attrs(root, **copied)
 
     def _get_attrs(self, root: paths.PathLike, **options):
-- 
2.43.0


From 165db9ca84178f1258f59762907ef78e4b19e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 12/50] fix: load only the contents of the given file into a
 log entry

---
 src/eprempy/project.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index f92e711..dcb8f04 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -191,13 +191,10 @@ class RunLog(collections.abc.Mapping):
         return self
 
     def _read_from_file(self, source, filetype):
-        """Update the current contents from the `source` file."""
-        contents = self._asdict.copy()
+        """Read the contents of the `source` file."""
         loader = self._source_loader(filetype or pathlib.Path(source).suffix)
         with pathlib.Path(source).open('r') as fp:
-            if loaded := loader(fp):
-                contents.update(loaded)
-        return contents
+            return dict(loader(fp) or {})
 
     def _source_loader(self, filetype: str):
         """Get a format-specific file-reader."""
-- 
2.43.0


From a54acf769b5f3eb59f2f1b838998c7ae53c5d79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 13/50] fix: list only directories as runs

---
 src/eprempy/project.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index dcb8f04..b38c158 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -575,11 +575,13 @@ class RunPaths(collections.abc.Collection):
             return {
                 run.name: set()
                 for run in (self.root / self.base).glob('*')
+                if run.is_dir()
             }
         base = {
             run.name: set()
             for branch in self._branches
             for run in (self.root / branch / self.base).glob('*')
+            if run.is_dir()
         }
         for run, branches in base.items():
             branches.update(
-- 
2.43.0


From 930eb168d53586885192540fa478268af5a49ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 14/50] fix: make the latest version of a project file durable

---
 src/eprempy/paths.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 30718c9..a471764 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -65,6 +65,13 @@ def write_text(p: PathLike, text: str):
         with contextlib.suppress(OSError):
             temporary.unlink()
         raise
+    # Make sure that the new file survives a power loss, if possible.
+    with contextlib.suppress(OSError):
+        fd = os.open(path.parent, os.O_RDONLY)
+        try:
+            os.fsync(fd)
+        finally:
+            os.close(fd)
 
 
 def locate(
-- 
2.43.0


From bcd34d349cfe53369cf44a3b962f677a2cd5abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 15/50] fix: do not ignore a run directory that cannot be read

---
 src/eprempy/project.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index b38c158..73331a3 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -6,6 +6,7 @@ import argparse
 import collections.abc
 import contextlib
 import datetime
+import fnmatch
 import json
 import os
 import pathlib
@@ -550,7 +551,7 @@ class RunPaths(collections.abc.Collection):
         if pattern is not None:
             return [
                 path for rundir in rundirs
-                for path in rundir.glob(pattern)
+                for path in self._find(rundir, pattern)
             ] if pattern else []
         if len(names) == 1:
             name = names[0]
@@ -559,6 +560,18 @@ class RunPaths(collections.abc.Collection):
             return self.define(pattern='*', branches=branches)
         return [tuple(rundir / name for name in names) for rundir in rundirs]
 
+    def _find(self, rundir: pathlib.Path, pattern: str='*'):
+        """Find all paths in `rundir` with names that match `pattern`.
+
+        Unlike `pathlib.Path.glob`, this method will raise an exception if it
+        cannot read `rundir`, rather than proceed as if there were no matches.
+        """
+        try:
+            names = os.listdir(rundir)
+        except (FileNotFoundError, NotADirectoryError):
+            return []
+        return [rundir / name for name in fnmatch.filter(names, pattern)]
+
     def resolve(self, target: str, branches: typing.Iterable[str]=None):
         """Compute the full path(s) to the target run."""
         if not branches:
@@ -574,13 +587,13 @@ class RunPaths(collections.abc.Collection):
         if not self._branches:
             return {
                 run.name: set()
-                for run in (self.root / self.base).glob('*')
+                for run in self._find(self.root / self.base)
                 if run.is_dir()
             }
         base = {
             run.name: set()
             for branch in self._branches
-            for run in (self.root / branch / self.base).glob('*')
+            for run in self._find(self.root / branch / self.base)
             if run.is_dir()
         }
         for run, branches in base.items():
-- 
2.43.0


From fb92a018cf27160c08446547b36cb402522f0c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 16/50] fix: never leave an incomplete configuration file

---
 src/eprempy/cli.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 51783cb..25d00a2 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -67,10 +67,7 @@ def generate_config_file(
         f"# --------------------------------\n",
     ]
     filepath = paths.fullpath(path)
-    with filepath.open('w') as fp:
-        fp.writelines(header)
-        fp.writelines(values)
-        fp.writelines(footer)
+    paths.write_text(filepath, ''.join([*header, *values, *footer]))
     if verbose:
         print(f"Wrote default config file to {filepath}")
 
-- 
2.43.0


From 022a07aa1594bdf9cfb21ee084f1431a712127c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 17/50] fix: make generated configuration files reproduce the
 default values

---
 src/eprempy/cli.py               | 3 ++-
 src/eprempy/parameter/_config.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 25d00a2..d28e9e8 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -60,8 +60,9 @@ def generate_config_file(
         f"# --------------------------------\n",
     ]
     values = [
+        # Omit parameters that don't have a default value.
         f"{key}={_get_arg_value(default[key])}\n"
-        for key in keys
+        for key in keys if default[key] is not None
     ]
     footer = [
         f"# --------------------------------\n",
diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index b92a6b8..010a17c 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -311,7 +311,8 @@ def _convert(arg: typing.Union[str, _RT], realtype: _RT):
     if realtype in {int, float}:
         return soft_convert(arg, realtype)
     if realtype == list:
-        return soft_convert(arg, stringlist)
+        # A single value is equivalent to a single-element list.
+        return soft_convert(arg if '[' in arg else f"[{arg}]", stringlist)
     return arg
 
 
-- 
2.43.0


From 6bdd08f7863becea5be1f29fa46d7c0a06fe344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 18/50] fix: accept blank lines, indented comments, and '=' in
 configuration values

---
 src/eprempy/parameter/_config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 010a17c..7a1640a 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -253,11 +253,10 @@ def _parse_config(
     cmnt = comments or ()
     with filepath.open('r') as fp:
         for line in fp:
-            line = line.rstrip('\n')
-            if line == '' or line == '\n' or line[0] in cmnt:
-                continue
             tmp = paths.strip_inline_comments(line, cmnt)
-            key, value = tmp.split('=')
+            if tmp == '':
+                continue
+            key, value = tmp.split('=', maxsplit=1)
             pairs[key.strip()] = value.strip()
     return pairs
 
-- 
2.43.0


From c8a9eb8105201809c8654e6ff11b357fdd37e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 19/50] fix: compare configuration files to the defaults of the
 given source

---
 src/eprempy/cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index d28e9e8..44d7024 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -90,6 +90,8 @@ def compare_config_files(
     if not files:
         raise UserError("Nothing to compare") from None
     args = _build_arg_dict(files, source=source, diff=diff, names=names)
+    if not args:
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
@@ -128,14 +130,14 @@ def _build_arg_dict(
     names: bool=False,
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
-    default = parameter.interface()
+    default = parameter.interface(srcdir=source)
     normalized = _normalize_paths(files)
     if names:
         mapped = normalized
     else:
         mapped = {k: str(i) for i, k in enumerate(normalized)}
     targets = {
-        relpath: parameter.interface(abspath)
+        relpath: parameter.interface(abspath, srcdir=source)
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
@@ -160,7 +162,7 @@ def _map_parameter(
     d = {}
     for name, interface in targets.items():
         userdef = parameter.configfile(interface.config)
-        if userdef.get(key):
+        if key in userdef:
             d[name] = _format_arg_string(interface.get(key))
         else:
             d[name] = '(default)'
-- 
2.43.0


From 53a5f788631af8cf5eb1312adae22fac7410e166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 20/50] fix: select observer and configuration files in a
 definite order

The order of file-name prefixes came from iterating over sets, and the
configuration file was whichever one the operating system listed first.
---
 src/eprempy/eprem.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index dfe0f77..0038923 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -4,6 +4,7 @@ EPREM observer interfaces.
 
 import collections.abc
 import contextlib
+import fnmatch
 import pathlib
 import typing
 
@@ -143,7 +144,7 @@ ObserverType = typing.TypeVar('ObserverType', bound=Observer)
 class Stream(Observer):
     """An EPREM stream observer."""
 
-    prefixes = {'stream', 'obs', 'flux'}
+    prefixes = ('stream', 'obs', 'flux')
 
     @classmethod
     def patterns(cls, __id: int) -> typing.List[str]:
@@ -174,7 +175,7 @@ class Stream(Observer):
 class Point(Observer):
     """An EPREM point observer."""
 
-    prefixes = {'point', 'p_obs'}
+    prefixes = ('point', 'p_obs')
 
     @classmethod
     def patterns(cls, __id: typing.Union[str, int]) -> typing.List[str]:
@@ -258,7 +259,7 @@ def observer(
             f"Cannot create observer from ID type {type(__id)}"
         ) from None
     if isinstance(__id, int):
-        patterns = (f'{prefix}{__id:06}.*' for prefix in {'obs', 'flux'})
+        patterns = (f'{prefix}{__id:06}.*' for prefix in ('obs', 'flux'))
         return _create_observer(Stream, patterns, config, source, system)
     patterns = []
     with contextlib.suppress(ValueError):
@@ -410,7 +411,7 @@ class Dataset:
 def _get_observer_id(path: pathlib.Path):
     """Compute the appropriate observer ID for the given path."""
     stem = path.stem
-    prefixes = Stream.prefixes | Point.prefixes
+    prefixes = Stream.prefixes + Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
             key = stem.lstrip(prefix)
@@ -440,13 +441,25 @@ class SourcePathError(Exception):
     """Error while creating path to observer data."""
 
 
+def _find_paths(directory: pathlib.Path, pattern: str):
+    """Find all paths in `directory` that match `pattern`, in order of name.
+
+    Unlike `pathlib.Path.glob`, this function will raise an exception if the
+    directory is not readable.
+    """
+    return sorted(
+        path for path in directory.iterdir()
+        if fnmatch.fnmatchcase(path.name, pattern)
+    )
+
+
 def _build_datapath(
     patterns: typing.Iterable[str],
     directory: pathlib.Path,
 ) -> pathlib.Path:
     """Create the full path to an observer's data file, if possible."""
     for pattern in patterns:
-        filenames = list(directory.glob(pattern))
+        filenames = _find_paths(directory, pattern)
         if len(filenames) == 1:
             return paths.fullpath(directory / filenames[0], strict=True)
         if len(filenames) > 1:
@@ -473,8 +486,8 @@ def _build_confpath(
     """Create the full path to the requested config file, if possible."""
     if config is None: # need to guess
         for name in _CONFIG_NAMES:
-            if found := next(directory.glob(name), None):
-                return found
+            if found := _find_paths(directory, name):
+                return found[0]
         raise ValueError(
             f"Cannot guess name of config file in {directory}"
         ) from None
-- 
2.43.0


From 94964d159452117359371ea6812d6ad7237cedeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 21/50] fix: list every observer file under its own ID

Removing the prefix with str.lstrip also removed characters of the ID, and an
unreadable directory produced an empty mapping. If files with different
prefixes have the same ID, prefer the one that stream() and point() prefer.
---
 src/eprempy/eprem.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 0038923..f8db300 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -347,8 +347,8 @@ class Dataset:
         if self._streams is None:
             obspaths = [
                 path
-                for prefix in Stream.prefixes
-                for path in self.directory.glob(f"{prefix}*")
+                for prefix in reversed(Stream.prefixes)
+                for path in _find_paths(self.directory, f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
             ]
             self._streams = {
@@ -363,8 +363,8 @@ class Dataset:
         if self._points is None:
             obspaths = [
                 path
-                for prefix in Point.prefixes
-                for path in self.directory.glob(f"{prefix}*")
+                for prefix in reversed(Point.prefixes)
+                for path in _find_paths(self.directory, f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
             ]
             self._points = {
@@ -414,7 +414,7 @@ def _get_observer_id(path: pathlib.Path):
     prefixes = Stream.prefixes + Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
-            key = stem.lstrip(prefix)
+            key = stem.removeprefix(prefix)
             if prefix in Stream.prefixes:
                 return int(key)
             return key
-- 
2.43.0


From 6e57da8514f063b6d19112ba2df8b27dd3b35917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:54 +0000
Subject: [PATCH 22/50] fix: convert electromagnetic units between mks and cgs
 correctly

The factors for current, charge, potential, resistance, and inductance mixed
the speed of light in m/s and in cm/s, so that charge in cgs was wrong by a
factor of 100, and the factor for permeability lacked parentheses.
---
 src/eprempy/metric/_reference.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1ceb542..09a2544 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -779,17 +779,17 @@ PI = numpy.pi
 _CONVERSIONS = {
     ('Rs', 'm'): 6.96e8,
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
     ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -800,10 +800,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
+    ('H / m', '1'): 1e7 / (4*PI),
     ('F / m', '1'): 36*PI * 1e9,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From 8db56b81834289388fc64c4cb2ef535ca26464a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:44 +0000
Subject: [PATCH 23/50] fix: interpolate observable quantities to any time and
 radius within the data

Interpolating first over time and then over radius paired the new rows with the
wrong reference radii, a radius equal to a grid value raised an exception, and
the first and last coordinates were out of bounds.
---
 src/eprempy/observable/_interfaces.py | 10 ++++++----
 src/eprempy/observable/_objects.py    |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index aac0451..6d3c76d 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -952,7 +952,9 @@ class Implementations:
             # dimensions.
             return from_axis
         from_grid = self._get_grid_interpolant(x, assumptions, 'radius')
-        return {**from_axis, **from_grid}
+        # NOTE: Radial interpolation comes first because the reference radii are
+        # functions of the original times.
+        return {**from_grid, **from_axis}
 
     def _get_axis_interpolant(self, x: physical.Array, assumptions: dict):
         """Compute interpolation information from an axis object."""
@@ -1051,7 +1053,7 @@ def _check_interpolation_bounds(
     """Raise an exception if `value` is not bounded by `reference`."""
     a = numpy.min(reference)
     b = numpy.max(reference)
-    if not a < value < b:
+    if not a <= value <= b:
         sv = f"{float(value):6.4g} {str(value.unit)}"
         sa = f"{float(a):6.4g} {str(reference.unit)}"
         sb = f"{float(b):6.4g} {str(reference.unit)}"
@@ -1974,10 +1976,10 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    ndim = reference.ndim
+    if ndim == 1 and target in reference:
         idx = container.nearest(reference, target).index
         return array[idx]
-    ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index bb784c0..6842e5b 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -143,10 +143,10 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
+    ndim = reference.ndim
+    if ndim == 1 and target in reference:
         idx = container.nearest(reference, target).index
         return array[idx]
-    ndim = reference.ndim
     if ndim == 2:
         interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
         return numpy.array([interp(target) for interp in interps])
-- 
2.43.0


From e1e72645349bb9ecbc62a6cd3dddca008e826318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:03 +0000
Subject: [PATCH 24/50] fix: use the axes of the observed data for the angle
 between U and B

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 6d3c76d..51890a8 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -392,7 +392,7 @@ class Implementations:
         return physical.array(
             numpy.arccos(arg),
             unit='rad',
-            axes=self.dataset.ur.axes,
+            axes=ratio.axes,
         )
 
     def uperp(
-- 
2.43.0


From 3e8151171a6240df41e9ffcbd6b8e027ded362f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:03 +0000
Subject: [PATCH 25/50] fix: do not ignore a single shell index when computing
 acceleration rate

---
 src/eprempy/observable/_interfaces.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 51890a8..c6226c1 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -566,10 +566,12 @@ class Implementations:
 
     def _compute_ar(self, shell=None, species=None) -> physical.Array:
         """Helper for `_ar`."""
-        s = (
-            shell if isinstance(shell, numeric.index.Sequence)
-            else self.axes['shell'].index()
-        )
+        if isinstance(shell, numeric.index.Sequence):
+            s = shell
+        elif isinstance(shell, numeric.index.Value):
+            s = numeric.index.sequence([int(shell)])
+        else:
+            s = self.axes['shell'].index()
         s1 = s.shift(1, ceil=len(self.axes['shell'])-1)
         s2 = s.shift(-1, floor=0)
         ur1 = self.ur(shell=s1)
-- 
2.43.0


From bc37d2014e1cfce77339638218f3ac978750e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 26/50] fix: compute energy-dependent quantities at the
 requested energies

---
 src/eprempy/observable/_interfaces.py | 74 +++++++++++++--------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index c6226c1..0924922 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -94,24 +94,37 @@ class Implementations:
         return self._definitions
 
     ## -- auxiliary/axis-like quantities --
-    # Each method directly subscripts the dataset array because interpolation
-    # over any of these quantities is either meaningless or unnecessary.
+    # Interpolating a coordinate (e.g., energy) over itself is equivalent to
+    # observing the target values. Interpolation over any of the other
+    # quantities is either meaningless or unnecessary.
 
-    def time(self, time=None) -> physical.Array:
+    def time(
+        self,
+        time=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
         """Compute the output times."""
-        return self.dataset.time[_normalize_indices(time or slice(None))]
+        return self._observe(self.dataset.time, assumptions, time=time)
 
-    def energy(self, energy=None) -> physical.Array:
+    def energy(
+        self,
+        energy=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
         """Compute the particle energies."""
-        return self.dataset.energy[_normalize_indices(energy or slice(None))]
+        return self._observe(self.dataset.energy, assumptions, energy=energy)
 
     def v(self, energy=None) -> physical.Array:
         """Compute the particle speeds."""
         return self.dataset.v[_normalize_indices(energy or slice(None))]
 
-    def mu(self, mu=None) -> physical.Array:
+    def mu(
+        self,
+        mu=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
         """Compute the particle pitch-angle cosines."""
-        return self.dataset.mu[_normalize_indices(mu or slice(None))]
+        return self._observe(self.dataset.mu, assumptions, mu=mu)
 
     def mass(self, species=None) -> physical.Array:
         """Compute the mass of each species."""
@@ -472,6 +485,7 @@ class Implementations:
         self,
         species=None,
         energy=None,
+        assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the magnetic rigidity.
 
@@ -485,7 +499,7 @@ class Implementations:
         return self._compute_rigidity(
             self.mass(species=species),
             self.charge(species=species),
-            self.energy(energy=energy),
+            self.energy(energy=energy, assumptions=assumptions),
         )
 
     def _compute_rigidity(
@@ -525,7 +539,7 @@ class Implementations:
         assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the mean free path."""
-        e = self.energy(energy=energy)
+        e = self.energy(energy=energy, assumptions=assumptions)
         m = self.mass(species=species)
         q = self.charge(species=species)
         rg = self._compute_rigidity(m, q, e)
@@ -1157,15 +1171,10 @@ class Quantities(collections.abc.Mapping):
 
     def _time(self, user: Arguments):
         """Callback method for time."""
-        if 'time' in user:
-            unit = self.dataset.time.unit
-            data = numpy.array(user['time'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.time.axes,
-            )
-        return self.functions.time(time=user.time)
+        return self.functions.time(
+            time=user.time,
+            assumptions=user.assumptions,
+        )
 
     @property
     def energy(self):
@@ -1178,15 +1187,10 @@ class Quantities(collections.abc.Mapping):
 
     def _energy(self, user: Arguments):
         """Callback method for particle energies per nucleon."""
-        if 'energy' in user:
-            unit = self.dataset.energy.unit
-            data = numpy.array(user['energy'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.energy.axes,
-            )
-        return self.functions.energy(energy=user.energy)
+        return self.functions.energy(
+            energy=user.energy,
+            assumptions=user.assumptions,
+        )
 
     @property
     def v(self):
@@ -1216,15 +1220,10 @@ class Quantities(collections.abc.Mapping):
 
     def _mu(self, user: Arguments):
         """Callback method for pitch-angle cosines."""
-        if 'mu' in user:
-            unit = self.dataset.mu.unit
-            data = numpy.array(user['mu'].withunit(unit))
-            return physical.array(
-                data,
-                unit=unit,
-                axes=self.dataset.mu.axes,
-            )
-        return self.functions.mu(mu=user.mu)
+        return self.functions.mu(
+            mu=user.mu,
+            assumptions=user.assumptions,
+        )
 
     @property
     def mass(self):
@@ -1624,6 +1623,7 @@ class Quantities(collections.abc.Mapping):
         return self.functions.rigidity(
             species=user.species,
             energy=user.energy,
+            assumptions=user.assumptions,
         )
 
     @property
-- 
2.43.0


From ff0e369b497ceccdf3be94c618ee5d6bf60fdc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:03 +0000
Subject: [PATCH 27/50] fix: account for scale and dimensionless units when
 converting by dimensions

---
 src/eprempy/metric/_conversions.py | 61 +++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 312e394..d83afe7 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -286,10 +286,16 @@ def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
     factor = 1.0
     decomposed = []
     for term in terms:
-        if decomposition := _decompose_unit(term):
-            scale, units = decomposition
-            decomposed.extend(units)
-            factor *= scale
+        decomposition = _decompose_unit(term)
+        if decomposition is None:
+            if _is_dimensionless(term.base):
+                factor *= _get_magnitude(term.base) ** term.exponent
+                continue
+            # We can't ignore a dimensional term that we can't decompose.
+            return
+        scale, units = decomposition
+        decomposed.extend(units)
+        factor *= scale
     if symbolic.expression(decomposed) == '1':
         return factor
     cancelled = _cancel_terms(decomposed)
@@ -302,20 +308,24 @@ def _decompose_unit(term: symbolic.Term):
     """Convert a unit into fundamental units, if possible."""
     exponent = term.exponent
     if reduction := _reduce_unit(term.base, exponent):
-        return 1.0, reduction
+        return reduction
     for system in _reference.SYSTEMS:
         norm = _defined.NamedUnit(term.base).norm[system]
         if reduction := _reduce_unit(norm.symbol, exponent):
             if factor := _convert_as_strings(term.base, norm.symbol):
-                return factor**exponent, reduction
+                scale, units = reduction
+                return scale * factor**exponent, units
 
 
 def _reduce_unit(base: str, exponent: numbers.Real):
-    """Compute the equivalent expression in fundamental units, if possible."""
+    """Compute the equivalent expression in fundamental units, if possible.
+
+    The result comprises the numerical scale of the reduced unit, which applies
+    to the expression as a whole, and the fundamental-unit terms.
+    """
     if reduction := _defined.NamedUnit(base).reduce():
-        return [
+        return reduction.scale**exponent, [
             symbolic.term(
-                coefficient=reduction.scale**exponent,
                 base=this.base,
                 exponent=exponent*this.exponent,
             )
@@ -378,17 +388,14 @@ def _match_exponents(
 ) -> typing.Optional[typing.Tuple[float, symbolic.Term]]:
     """Attempt to convert `target` to a term in `terms` by exponent.
 
-    This function first checks whether `target` is a dimensionless reference
-    unit and, if so, returns a conversion factor of 1.0 along with `target`. If
-    that check fails, this function compares `target` to each term in `terms`
-    that has an exponent with the same magnitude and opposite sign. If it can
-    convert the base unit of `target` to the base unit of a term in `terms`, it
-    will return the corresponding conversion factor and the matching term.
+    This function first compares `target` to each term in `terms` that has an
+    exponent with the same magnitude and opposite sign. If it can convert the
+    base unit of `target` to the base unit of a term in `terms`, it will return
+    the corresponding conversion factor and the matching term. If that fails and
+    `target` is a dimensionless unit, it will return the conversion factor to
+    the corresponding reference unit along with `target`.
     """
     u0 = target.base
-    dimensions = _defined.NamedUnit(u0).dimensions.values()
-    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
-        return 1.0, target
     exponent = target.exponent
     inverse_powers = [
         term for term in terms
@@ -398,6 +405,24 @@ def _match_exponents(
         u1 = term.base
         if conversion := _convert_as_strings(u0, u1):
             return conversion ** exponent, term
+    if _is_dimensionless(u0):
+        return _get_magnitude(u0) ** exponent, target
+
+
+def _is_dimensionless(unit: str):
+    """True if the named unit has a dimension of unity in all systems."""
+    dimensions = _defined.NamedUnit(unit).dimensions.values()
+    return all(d == '1' for d in dimensions)
+
+
+def _get_magnitude(unit: str):
+    """The magnitude of a dimensionless named unit."""
+    named = _defined.NamedUnit(unit)
+    for system in _reference.SYSTEMS:
+        norm = named.norm[system]
+        if factor := _convert_as_strings(unit, norm.symbol):
+            return factor
+    return named.scale
 
 
 @etc.autostr
-- 
2.43.0


From e07d9b592474fc508b120f360a72afee43bb3e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 28/50] fix: support Greek symbols and powers of zero in unit
 expressions

---
 src/eprempy/symbolic/_operand.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index bd503c2..ef82af4 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -72,7 +72,7 @@ class Operand(_part.Part):
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(1 if exponent is None else exponent)
         """The numerical exponent."""
 
     @property
@@ -135,7 +135,7 @@ class OperandFactory(_part.Factory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-Z#_μΩ]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
 
@@ -656,7 +656,7 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
+        [a-zA-Z#_μΩ]+ # one or more accepted non-digit character(s)
         \d*         # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
-- 
2.43.0


From a02d9142849d0d63a489efa08c22c6bafd7c8a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:26 +0000
Subject: [PATCH 29/50] fix: correct the dimension of permittivity in mks

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 09a2544..9a85189 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -636,7 +636,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From 8049ad74ab06b39d67f40dedab41ea56d94441f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:42 +0000
Subject: [PATCH 30/50] fix: keep aliased mappings consistent when an operation
 fails or is interrupted

---
 src/eprempy/aliased.py | 50 +++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 3e62fc1..cc014a1 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
@@ -368,6 +368,11 @@ def _build_from_key(
     return dict(zip(keys, values))
 
 
+def _flatten(groups: typing.Iterable[Group]) -> typing.Dict[_KT, Group]:
+    """Build a `dict` that maps each alias in `groups` to its group."""
+    return {alias: group for group in groups for alias in group}
+
+
 @typing.runtime_checkable
 class _MappingProtocol(typing.Protocol[_KT, _VT]):
     """Protocol for aliased mappings."""
@@ -591,7 +596,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
             mapping values.
         """
         self.as_dict = self._build_dict(mapping, aliases)
-        self._flat_dict = {alias: k for k in self.as_dict for alias in k}
+        self._flat_dict = _flatten(self.as_dict)
 
     def _build_dict(self, mapping, aliases):
         """Build the equivalent `dict` attribute."""
@@ -656,13 +661,8 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
         
         Notes
         -----
-        Checking ``key in self.as_dict`` doesn't always work because `dict`
-        look-up will first compare the key's hash value to those of existing
-        keys before comparing the key itself. This may fail in the first stage
-        due to the fact that `MappingKey.__hash__` uses `tuple.__hash__`, which
-        depends on order, despite the fact that the second stage should pass
-        because `MappingKey.__eq__` does not depend on order. See
-        https://stackoverflow.com/q/327311/4739101.
+        This method compares `target` to each existing key, rather than checking
+        ``key in self.as_dict``, in order to return the existing key.
         """
         try:
             found = next(key for key in self.as_dict if key == target)
@@ -821,7 +821,7 @@ class Mapping(collections.abc.Mapping, typing.Generic[_KT, _VT]):
 
     def copy(self):
         """Create a shallow copy of this instance."""
-        return type(self)(self.as_dict)
+        return type(self)(self)
 
 
 class MutableMapping(Mapping, collections.abc.MutableMapping):
@@ -884,22 +884,21 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
     def __setitem__(self, key: str, value: _VT):
         """Assign a value to `key` and its aliases."""
         resolved = self._resolve(key) or Group(key)
+        # NOTE: Update the internal collections together, after computing
+        # everything they require, so that an interrupted assignment does not
+        # leave them inconsistent. The same applies to deletion and aliasing.
+        flat = _flatten([*self.as_dict, resolved])
         self.as_dict[resolved] = value
-        self._refresh()
+        self._flat_dict = flat
 
     def __delitem__(self, key: str):
         """Remove the item corresponding to `key`."""
         resolved = self._resolve(key)
         if not resolved:
             raise KeyError(f"'{key!r}' is not a known name or alias.") from None
+        flat = _flatten([k for k in self.as_dict if k is not resolved])
         del self.as_dict[resolved]
-        self._refresh()
-
-    def _refresh(self):
-        """Perform common tasks after setting or deleting an item."""
-        self._flat_dict = {
-            alias: key for key in self.as_dict for alias in key
-        }
+        self._flat_dict = flat
 
     def alias(self, key: str, *aliases: str, include=False):
         """Get or set the alias(es) for an existing key.
@@ -918,7 +917,8 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not aliases:
             return super().alias(key, include=include)
-        for alias in (a for a in aliases if a != key):
+        new = [a for a in aliases if a != key]
+        for alias in new:
             if alias in self._flat_keys():
                 current = super().alias(key)
                 this = ", ".join(str(a) for a in current)
@@ -927,9 +927,15 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
                 raise KeyError(
                     f"'{key}' is already an alias for {this!r}"
                 ) from None
-            updated = self._resolve(key) | alias
-            self.as_dict[updated] = self[key]
-            del self[key]
+        if not new:
+            return
+        current = self._resolve(key)
+        updated = current | new
+        new_dict = {k: v for k, v in self.as_dict.items() if k is not current}
+        new_dict[updated] = self[key]
+        new_flat = _flatten(new_dict)
+        self.as_dict = new_dict
+        self._flat_dict = new_flat
 
     def group(self, name: str, *keys: str):
         """View or create a groups of aliased items.
-- 
2.43.0


From 2ea9a3591b4f3ead919777cbd307232175d4b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:04 +0000
Subject: [PATCH 31/50] fix: convert units in both directions whenever possible
 in one

---
 src/eprempy/metric/_conversions.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index d83afe7..797b5dd 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -96,7 +96,15 @@ def conversion_factory(u0: str, u1: str) -> Conversion:
     """
     if available := _conversions.get((u0, u1)):
         return available
-    c = _convert(u0, u1)
+    try:
+        c = _convert(u0, u1)
+    except _exceptions.UnitConversionError as err:
+        # Some strategies depend on the direction of the conversion. If there is
+        # a conversion from `u1` to `u0`, the result is the inverse.
+        try:
+            c = 1 / _convert(u1, u0)
+        except _exceptions.UnitConversionError:
+            raise err from None
     _conversions[(u0, u1)] = c
     _conversions[(u1, u0)] = 1 / c
     return c
-- 
2.43.0


From 999dcd1c68f6ebf76224f53f5dc7d036ab8db614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 32/50] fix: distinguish centiday from candela

---
 src/eprempy/metric/_defined.py   |  2 +-
 src/eprempy/metric/_reference.py | 14 ++++++++++++++
 src/eprempy/metric/_units.py     |  5 +----
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index d351264..e458123 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -225,7 +225,7 @@ class _NamedUnitMeta(abc.ABCMeta):
         magnitude, reference = identify(string)
         # Store the information to initialize a new instance.
         name = f"{magnitude.name}{reference.name}"
-        symbol = f"{magnitude.symbol}{reference.symbol}"
+        symbol = _reference.get_symbol(string)
         cls._attributes[string] = {
             'prefix': magnitude,
             'base': reference,
diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 9a85189..a88f7db 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -338,6 +338,20 @@ def _build_named_units(
 NAMED_UNITS = _build_named_units(_PREFIXES, _UNITS)
 
 
+def get_symbol(unit: str) -> str:
+    """Get the symbol of a named unit.
+
+    If the symbol of the named unit denotes a different unit (e.g., the symbol
+    of the centiday would be equal to that of the candela), this function will
+    return its name.
+    """
+    this = NAMED_UNITS[unit]
+    symbol = f"{this['prefix']['symbol']}{this['base']['symbol']}"
+    if NAMED_UNITS[symbol] is this:
+        return symbol
+    return f"{this['prefix']['name']}{this['base']['name']}"
+
+
 # A note about angles: Kalinin (2019) "On the status of plane and solid in the
 # International System of Units (SI)" makes a very compelling argument that the
 # plane- and solid-angle units should not be '1'; instead:
diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 60c6fd5..39b87dd 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -478,10 +478,7 @@ def normalize(
 
 def _as_symbol(unit: symbolic.Term):
     """Represent `unit` in terms of its symbol."""
-    this = _reference.NAMED_UNITS[unit.base]
-    prefix = this['prefix']['symbol']
-    base = this['base']['symbol']
-    return symbolic.term(prefix + base) ** unit.exponent
+    return symbolic.term(_reference.get_symbol(unit.base)) ** unit.exponent
 
 
 def _equivalent_quantities(u0: Unit, u1: Unit):
-- 
2.43.0


From d687ba986b1b9d2e90b1b69f75631cd9e5d811fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:02 +0000
Subject: [PATCH 33/50] fix: combine terms of a unit expression that denote the
 same unit

---
 src/eprempy/metric/_units.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 39b87dd..7fb07d5 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -413,7 +413,9 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
     symbols = [_as_symbol(term) for term in expression]
-    instance = Unit(symbols)
+    # NOTE: This will combine terms that have distinct base strings but equal
+    # symbols (e.g., 'meter' and 'm').
+    instance = Unit(symbolic.reduce(symbols) if symbols else symbols)
     name = str(instance)
     if name in _units:
         # It turns out that the argument corresponds to an existing unit.
-- 
2.43.0


From d9b7a1ed6813300b9fd6e475e9a7e01e9261e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 34/50] fix: create one instance of each unit, quantity, and
 system among threads

---
 src/eprempy/metric/_conversions.py |  3 +--
 src/eprempy/metric/_defined.py     |  7 +++++++
 src/eprempy/metric/_systems.py     |  6 ++----
 src/eprempy/metric/_units.py       | 10 ++++++++++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 797b5dd..fa73ffc 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -527,8 +527,7 @@ def converter_factory(unit: str, quantity: str) -> Converter:
         return available
     substitutions = _get_substitutions(quantity)
     c = Converter(unit, quantity, substitutions)
-    _converters[(unit, quantity)] = c
-    return c
+    return _converters.setdefault((unit, quantity), c)
 
 
 def _get_substitutions(quantity: str):
diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index e458123..c7f51a9 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -2,6 +2,7 @@ import abc
 import collections.abc
 import contextlib
 import numbers
+import threading
 import typing
 
 from .. import aliased
@@ -208,6 +209,7 @@ class _NamedUnitMeta(abc.ABCMeta):
 
     _instances = aliased.MutableMapping()
     _attributes = {}
+    _lock = threading.RLock()
 
     def __call__(
         cls,
@@ -217,6 +219,11 @@ class _NamedUnitMeta(abc.ABCMeta):
         if isinstance(arg, cls):
             # If the argument is already an instance, return it.
             return arg
+        with cls._lock:
+            return cls._get_instance(arg)
+
+    def _get_instance(cls, arg: symbolic.Expressable) -> Instance:
+        """Create a new instance or return an existing one."""
         string = str(arg)
         if available := cls._instances.get(string):
             # If the argument maps to an existing unit, return that unit.
diff --git a/src/eprempy/metric/_systems.py b/src/eprempy/metric/_systems.py
index c64a25e..fc3f50a 100644
--- a/src/eprempy/metric/_systems.py
+++ b/src/eprempy/metric/_systems.py
@@ -193,8 +193,7 @@ def quantity_factory(arg: typing.Union[str, Quantity]) -> Quantity:
     if available := _quantities.get(name):
         return available
     q = Quantity(name)
-    _quantities[name] = q
-    return q
+    return _quantities.setdefault(name, q)
 
 
 class SearchError(KeyError):
@@ -412,7 +411,6 @@ def system_factory(arg: typing.Union[str, System]) -> System:
     if available := _systems.get(name):
         return available
     s = System(name)
-    _systems[name] = s
-    return s
+    return _systems.setdefault(name, s)
 
 
diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 7fb07d5..100d8c2 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -4,6 +4,7 @@ Support for metric units.
 
 import contextlib
 import numbers
+import threading
 import typing
 
 from .. import aliased
@@ -392,10 +393,19 @@ def _decompose_term(term: symbolic.Term):
 _units = aliased.MutableMapping()
 """Internal collection of singleton `~Unit` instances."""
 
+_lock = threading.RLock()
+"""Internal lock that precludes redundant instances from multiple threads."""
+
 def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     """Create a metric unit representing the given expression."""
     if isinstance(arg, Unit):
         return arg
+    with _lock:
+        return _get_unit(arg)
+
+
+def _get_unit(arg: symbolic.Expressable) -> Unit:
+    """Create a new unit or return an existing one."""
     # Attempt to extract a string representing a single unit.
     if isinstance(arg, str):
         string = arg
-- 
2.43.0


From bce97418445d93ca5c7a1f14b01cd47a07e2103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:10 +0000
Subject: [PATCH 35/50] fix: support lux and refuse unknown quantities

---
 src/eprempy/metric/_defined.py   | 5 ++++-
 src/eprempy/metric/_reference.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index c7f51a9..58b7f86 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -117,9 +117,12 @@ class _Property(collections.abc.Mapping):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        quantity = term.base.replace('_', ' ')
+        if quantity not in _reference._QUANTITIES:
+            raise KeyError(f"Unknown quantity {quantity}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[quantity].items()
         }
 
     def __str__(self) -> str:
diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index a88f7db..0f5ea92 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -505,7 +505,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
-- 
2.43.0


From fe94d6bcb5910bcd02dd2db5029525aef68e5474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 36/50] fix: keep one instance of each named unit for all of
 its symbols

---
 src/eprempy/metric/_defined.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index 58b7f86..ee666fd 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -236,6 +236,11 @@ class _NamedUnitMeta(abc.ABCMeta):
         # Store the information to initialize a new instance.
         name = f"{magnitude.name}{reference.name}"
         symbol = _reference.get_symbol(string)
+        if available := cls._instances.get(name):
+            # The argument is another way to write an existing unit (e.g., 'um'
+            # instead of 'μm').
+            cls._instances.alias(name, string)
+            return available
         cls._attributes[string] = {
             'prefix': magnitude,
             'base': reference,
@@ -248,7 +253,7 @@ class _NamedUnitMeta(abc.ABCMeta):
         # `NamedUnit.__init__`, which will initialize the newly instantiated
         # instance with the stored attributes corresponding to `str(arg)`.
         instance = super().__call__(arg)
-        cls._instances[(name, symbol)] = instance
+        cls._instances[(name, symbol, string)] = instance
         return instance
 
 
-- 
2.43.0


From 6232c7652dd4e53af889cbcee0b43ece1f4c3042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:53 +0000
Subject: [PATCH 37/50] fix: convert unit expressions regardless of how the
 units are written

---
 src/eprempy/metric/_conversions.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index fa73ffc..6c190fe 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -170,7 +170,7 @@ def _standard_conversion(
 
 def _convert_as_expressions(u0: str, u1: str):
     """Convert complex unit expressions term-by-term."""
-    e0, e1 = (symbolic.expression(unit) for unit in (u0, u1))
+    e0, e1 = (_standardize(unit) for unit in (u0, u1))
     if e0 == e1:
         return 1.0
     terms = [
@@ -183,6 +183,17 @@ def _convert_as_expressions(u0: str, u1: str):
         return factor
 
 
+def _standardize(unit: str):
+    """Express `unit` in terms of unit symbols, where possible."""
+    expression = symbolic.expression(unit)
+    terms = [
+        symbolic.term(_reference.get_symbol(term.base)) ** term.exponent
+        if term.base != '1' and term.base in _reference.NAMED_UNITS else term
+        for term in expression
+    ]
+    return symbolic.expression(terms) if terms else expression
+
+
 def _simple_conversion(u0: str, u1: str, scale: float=1.0):
     """Attempt to compute a simple conversion from `u0` to `u1`.
     
-- 
2.43.0


From f0a51857e927679f7e960ceb062ae7ff440eec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:48 +0000
Subject: [PATCH 38/50] fix: do not fail to cancel repeated terms when
 converting units

---
 src/eprempy/metric/_conversions.py | 23 +----------------------
 1 file changed, 1 insertion(+), 22 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 6c190fe..13d7672 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -317,8 +317,7 @@ def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
         factor *= scale
     if symbolic.expression(decomposed) == '1':
         return factor
-    cancelled = _cancel_terms(decomposed)
-    reduced = _reduce_terms(cancelled)
+    reduced = _reduce_terms(decomposed)
     if result := _resolve_terms(reduced):
         return factor * result
 
@@ -352,28 +351,8 @@ def _reduce_unit(base: str, exponent: numbers.Real):
         ]
 
 
-def _cancel_terms(terms: typing.List[symbolic.Term]):
-    """Cancel out terms with equal magnitude and opposite exponent."""
-    # TODO: Reduce redundancy with `_resolve_terms`.
-    matched = []
-    unmatched = terms.copy()
-    for target in terms:
-        if target not in matched:
-            inverse_powers = [
-                term for term in terms
-                if term != target and term.exponent == -target.exponent
-            ]
-            for term in inverse_powers:
-                if term.base == target.base:
-                    for this in (target, term):
-                        matched.append(this)
-                        unmatched.remove(this)
-    return unmatched
-
-
 def _resolve_terms(terms: typing.List[symbolic.Term]):
     """Compute ratios of terms with comparable exponents, if possible."""
-    # TODO: Reduce redundancy with `_cancel_terms`.
     if len(terms) <= 1:
         # We require at least two terms for a ratio.
         return
-- 
2.43.0


From f0ba0ecbe22cb8983f34dccea6515df024577e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 39/50] fix: keep groups and aliases when copying or freezing
 an aliased mapping

- freezing with groups dropped the aliases of all keys
- copying dropped the groups
- a group hid a key of the same name created later
---
 src/eprempy/aliased.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index cc014a1..4798718 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -874,7 +874,7 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         self._groups = {}
 
     def __getitem__(self, key: typing.Union[str, Group]) -> _VT:
-        if key in self._groups:
+        if key in self._groups and key not in self:
             return tuple(
                 super(MutableMapping, self).__getitem__(k)
                 for k in self._groups[key]
@@ -998,6 +998,12 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
             return self._groups[name]
         self._groups[name] = keys
 
+    def copy(self):
+        """Create a shallow copy of this instance."""
+        new = super().copy()
+        new._groups = self._groups.copy()
+        return new
+
     def freeze(self, groups: bool=False):
         """Generate a new immutable mapping from this instance.
         
@@ -1009,8 +1015,10 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not groups:
             return Mapping(self)
-        grouped = {k: self[k] for k in self._groups}
-        return Mapping({**self, **grouped})
+        merged = self.copy()
+        for name in self._groups:
+            merged[name] = self[name]
+        return Mapping(merged)
 
 
 class NameMap(collections.abc.Mapping):
-- 
2.43.0


From 062b929387dc66abe16d83d96de424cbbfcf2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 40/50] fix: open a project log that another process creates in
 the meantime

---
 src/eprempy/project.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 73331a3..619617b 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -859,11 +859,17 @@ class Interface:
         path = attrs.root / attrs.logname
         if path.exists():
             return RunLog(path)
-        return RunLog(
-            path,
-            config=attrs.config,
-            output=attrs.output,
-        )
+        try:
+            return RunLog(
+                path,
+                config=attrs.config,
+                output=attrs.output,
+            )
+        except TypeError:
+            # Another process created the log in the meantime.
+            if path.exists():
+                return RunLog(path)
+            raise
 
     def _setup_cli(self, attrs: Attrs):
         """Make sure this project can run as a script."""
-- 
2.43.0


From a775350c5dcbc904ae67ea4da0fb2705c2a556d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:14 +0000
Subject: [PATCH 41/50] fix: do not lose a coordinate to rounding when
 integrating flux above it

---
 src/eprempy/observable/_interfaces.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 0924922..77bc4fd 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -878,6 +878,10 @@ class Implementations:
                 f"The length of the final dimension of the interpolant ({m})"
                 f" must equal the length of the coordinate array ({n})"
             ) from None
+        # Unit conversions may have changed a value in `x` by a rounding error.
+        known = xarr[numpy.isclose(xarr, p, rtol=1e-9, atol=0.0)]
+        if known.size > 0:
+            p = float(known[0])
         i0, x0 = container.nearest(xarr, p, bound='upper')
         try:
             lnxc = numpy.log(xarr[i0+1] / x0)
-- 
2.43.0


From a72da319408e9b8115b4e7f94d97f40e62394e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:52 +0000
Subject: [PATCH 42/50] fix: compare a configuration file to one given by its
 path

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 7a1640a..17c2fff 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -208,7 +208,7 @@ class ConfigFile(collections.abc.Mapping):
             if isinstance(x, ConfigFile):
                 return x
             if isinstance(x, (str, pathlib.Path)):
-                return ConfigFile(x, **kwargs)
+                return configfile_factory(x, **kwargs)
             raise TypeError(
                 "Argument must be a path-like object"
                 f" or an instance of this class (got {type(x)})"
-- 
2.43.0


From 4d10b5f6b7e9a5bf3de8e7a9e51854edf920a17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:52 +0000
Subject: [PATCH 43/50] fix: use the exact speed of light when converting
 permittivity

---
 src/eprempy/metric/_reference.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 0f5ea92..06fc03d 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -815,7 +815,7 @@ _CONVERSIONS = {
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
     ('H / m', '1'): 1e7 / (4*PI),
-    ('F / m', '1'): 36*PI * 1e9,
+    ('F / m', '1'): 4*PI * C**2 * 1e-11,
     ('rad', 'deg'): 180 / PI,
     ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
-- 
2.43.0


From 3bed0bd052e34ecbda9e2265f11a5c4a2d975a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:28 +0000
Subject: [PATCH 44/50] fix: keep the scale of a reduced unit apart from its
 units

---
 src/eprempy/metric/_defined.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index ee666fd..37ae87b 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -300,7 +300,10 @@ class Reduction:
         scale: float=1.0,
         system: str=None,
     ) -> None:
-        self._expression = scale * symbolic.expression(terms)
+        # NOTE: The scale must not become part of the expression: the text of a
+        # number such as 1e-09 is not a coefficient but a product that includes a
+        # term called 'e'.
+        self._expression = symbolic.expression(terms)
         self.system = system
         self.scale = scale
         self._units = None
@@ -320,7 +323,7 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale * other
-        terms = list(scale * self._expression)
+        terms = list(self._expression)
         return type(self)(terms, scale=scale, system=self.system)
 
     __rmul__ = __mul__
@@ -331,7 +334,7 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale / other
-        terms = list(scale * self._expression)
+        terms = list(self._expression)
         return type(self)(terms, scale=scale, system=self.system)
 
     def __pow__(self, other):
@@ -339,11 +342,11 @@ class Reduction:
         if not isinstance(other, numbers.Real):
             return NotImplemented
         scale = self.scale ** other
-        terms = list(scale * self._expression**other)
+        terms = list(self._expression**other)
         return type(self)(terms, scale=scale, system=self.system)
 
     def __str__(self) -> str:
-        return f"{self._expression} [{self.system!r}]"
+        return f"{self.scale} {self._expression} [{self.system!r}]"
 
 
 @etc.autostr
-- 
2.43.0


From 382ae5da179a1d8fb12ed4c2c61f34f89957ef8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:34 +0000
Subject: [PATCH 45/50] fix: support powers and named products of observable
 quantities

---
 src/eprempy/observable/_objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 6842e5b..da3ce34 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -560,7 +560,8 @@ class Quantity:
     def _apply(self, operator, other, *attrs):
         """Apply a standard algebraic operator."""
         def __f(user: Arguments):
-            return operator(self[user], other[user])
+            y = other[user] if isinstance(other, Quantity) else other
+            return operator(self[user], y)
         context = Context(__f, self.context.axes, self.context.grid)
         return Quantity(context, *attrs)
 
-- 
2.43.0


From b22f8399353f64422c917dad676adc0a1ebaefc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:24 +0000
Subject: [PATCH 46/50] fix: show the runs that the caller names

---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 619617b..c70c822 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1399,7 +1399,7 @@ def show(
 ) -> None:
     """Display information about an existing project."""
     project = Interface(path)
-    project.show(*list(runs or []))
+    project.show(*([runs] if isinstance(runs, str) else runs or []))
 cli.subcommands['show'].add_argument(
     'path',
     help="the path to the target project; may be relative",
@@ -1413,7 +1413,7 @@ showruns.add_argument(
         "display information about the named run"
         ";\nspecify multiple times to include multiple runs"
     ),
-    action='extend',
+    action='append',
 )
 showruns.add_argument(
     '-a',
-- 
2.43.0


From a4c593be1efa6a65107b79a6aae17b491a9fe2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:24 +0000
Subject: [PATCH 47/50] fix: look for every kind of observer file by ID

---
 src/eprempy/eprem.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index f8db300..3075666 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -259,14 +259,20 @@ def observer(
             f"Cannot create observer from ID type {type(__id)}"
         ) from None
     if isinstance(__id, int):
-        patterns = (f'{prefix}{__id:06}.*' for prefix in ('obs', 'flux'))
-        return _create_observer(Stream, patterns, config, source, system)
-    patterns = []
-    with contextlib.suppress(ValueError):
-        patterns.append(f'p_obs{int(__id):03}.*')
-    if isinstance(__id, str):
-        patterns.append(f'{__id}.*')
-    return _create_observer(Point, tuple(patterns), config, source, system)
+        return _create_observer(
+            Stream,
+            Stream.patterns(__id),
+            config,
+            source,
+            system,
+        )
+    return _create_observer(
+        Point,
+        Point.patterns(__id),
+        config,
+        source,
+        system,
+    )
 
 
 def stream(
-- 
2.43.0


From efd8c6f5bb8fb65737b3f34f15321b4767dababe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:24 +0000
Subject: [PATCH 48/50] fix: accept parameters whose definition sums to zero

---
 src/eprempy/parameter/_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 17c2fff..86eaf4e 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -72,7 +72,8 @@ class Defaults(collections.abc.Mapping):
         interior = definition.strip('[]')
         if self._struct_member.match(interior):
             return [self._evaluate(interior.replace('config.', ''))]
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.expression(definition.replace('config.', ''))
-- 
2.43.0


From 91db63bf65562f55c3d41b50b2d3dbbc4100d5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:24 +0000
Subject: [PATCH 49/50] fix: select exactly the subscripted part of an array

---
 src/eprempy/numeric/_array.py | 4 ++--
 src/eprempy/numeric/_index.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index df2e126..ad5c054 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -388,7 +388,7 @@ class Array(Quantity[DataType], Operators):
                     self._get_axis_size(i, v)
                     for i, v in enumerate(indices)
                 ]
-                return array.reshape(shape)
+                return array.reshape([*shape, *self.shape[len(shape):]])
         return array
 
     def _get_axis_size(self, i: int, v):
@@ -396,7 +396,7 @@ class Array(Quantity[DataType], Operators):
         if isinstance(v, int):
             return 1
         if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
+            return len(range(*v.indices(self.shape[i])))
         return self.shape[i]
 
     def __str__(self) -> str:
diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index e3e8d38..ac81402 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -622,7 +622,7 @@ def normalize(shape: typing.Sequence[int], args):
     indices = []
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
-            indices.append(range(shape[i]))
+            indices.append(range(*arg.indices(shape[i])))
         elif isintegral(arg):
             indices.append((arg,))
         else:
-- 
2.43.0


From a125089010504493b624bb209447c1d79ea774b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:24 +0000
Subject: [PATCH 50/50] fix: subscript arrays with numpy arrays of indices

---
 src/eprempy/numeric/_index.py | 2 +-
 src/eprempy/physical/_axis.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index ac81402..a29df34 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -685,7 +685,7 @@ def expand_ellipsis(ndim: int, *args: typing.SupportsIndex):
     # 2) a slice for every dimension represented by the ellipsis
     # 3) all arguments after the ellipsis
     nslice = ndim - nargs + 1
-    ellpos = args.index(Ellipsis)
+    ellpos = norm.index(Ellipsis)
     return (
         *args[slice(0, ellpos)],
         *([slice(None)] * nslice),
diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index e5397b7..22d65cc 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -97,7 +97,7 @@ class Axis(numeric.Object[T]):
         original reference array.
         """
         axis = self.spawn(self.data[__i])
-        if __i in (slice(None), ...):
+        if isinstance(__i, (slice, type(...))) and __i in (slice(None), ...):
             return axis
         idx = self.normalize(container.unwrap(__i))
         axis._indices = numeric.index.sequence(idx)
-- 
2.43.0

