From 044739addb269cca11df2588af345bc0ade9f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 01/25] fix: pass default installer when merging any_version
 entries

---
 xylem/sources/rules_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 2922a08..7557cee 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -378,7 +378,8 @@ def merge_version_dict(new_version_dict, combined_version_dict,
             remove_rule_for_all_versions(combined_version_dict, installer)
         if "any_version" in combined_version_dict:
             merge_installer_dict(
-                new_installer_dict, combined_version_dict["any_version"], None)
+                new_installer_dict, combined_version_dict["any_version"],
+                default_installer)
         else:
             combined_version_dict["any_version"] = copy_installer_dict(
                 new_installer_dict, default_installer)
-- 
2.43.0


From e634e328dbb85c4a0d5a5601858e03469d05442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 02/25] fix: honour allow_default_installer in
 verify_rules_dict

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 7557cee..58974e8 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -99,7 +99,7 @@ def verify_rules_dict(rules_dict, allow_default_installer=True):
             raise_from(ValueError, "Expected rules dict to have xylem keys as "
                        "keys.", e)
         try:
-            verify_os_dict(os_dict)
+            verify_os_dict(os_dict, allow_default_installer)
         except ValueError as e:
             raise_from(ValueError, "Expected rules dict to have valid os "
                        "dicts as values, but got error for key '{0}'.".
-- 
2.43.0


From 801a7260d5963a8f1db602313fb0f279dc8765be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 03/25] fix: lookup without compacting no longer fails with
 UnboundLocalError

---
 xylem/lookup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index b4e4d50..dfa6865 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -37,7 +37,7 @@ def lookup(xylem_key, compact=False, config=None, sources_context=None,
 
     if compact:
         default_installer_name = ic.get_default_installer_name()
-        compacted = compact_installer_dict(installer_dict,
-                                           default_installer_name)
+        installer_dict = compact_installer_dict(installer_dict,
+                                                default_installer_name)
 
-    return compacted
+    return installer_dict
-- 
2.43.0


From d3f29fb92f15b0c836d95ea6c65bdcfeee5fd583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 04/25] fix: install with reinstall=True and report failure to
 determine uninstalled resolutions

---
 xylem/install.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index 0f833a8..88c41a6 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -83,16 +83,17 @@ def install(xylem_keys,
                                 interactive=interactive)
 
     #  4. Determine uninstalled resolutions
+    uninstalled_errors = []
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
         # TODO: figure out what exactly to do with these errors... For
         #       now print them here
         for err in uninstalled_errors:
-            error(exc_to_str(uninstalled_errors))
+            error(exc_to_str(err))
 
     if uninstalled_errors and not continue_on_error:
-        return resolve_errors, []
+        return resolve_errors, uninstalled_errors
 
     #  5. check prerequisites all resolutions to be installed
     check_install_prerequisites(_map_resolutions(resolved),
-- 
2.43.0


From a4435370048fbd8b29e26743daa5aede44a651f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 05/25] fix: return error if installer fails to compose install
 commands

---
 xylem/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/install.py b/xylem/install.py
index 88c41a6..08b5bc3 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -244,6 +244,7 @@ def install_resolutions(installer_name,
             "for resolutions {} with options `interactive={}` and "
             "`reinstall={}`".
             format(installer_name, resolutions, interactive, reinstall), e))
+        return errors
     except Exception as e:
         raise_from(
             XylemInternalError, "unexpected error in installer '{}' while "
-- 
2.43.0


From cfac978cdecdff9bbe11c0553785a43ca28f14e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 06/25] fix: compute source id from bytes, as needed by python
 3 hashlib

---
 xylem/sources/database.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f0ce0bc..633be3c 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -29,6 +29,7 @@ from xylem.log_utils import is_verbose
 from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
+from xylem.text_utils import to_bytes
 from xylem.text_utils import to_str
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
@@ -38,7 +39,7 @@ from xylem.sources.rules_dict import merge_installer_dict
 
 
 def _id_string(unique_id):
-    return hashlib.sha1(unique_id).hexdigest()
+    return hashlib.sha1(to_bytes(unique_id)).hexdigest()
 
 
 def _cache_file_path(cache_dir, unique_id):
-- 
2.43.0


From 6a5dff0bd7640dd54bf294a197ff5042c2432bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 07/25] fix: do not index dict views, which fails on python 3

---
 xylem/sources/database.py | 2 +-
 xylem/sources/impl.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 633be3c..a4044da 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -211,7 +211,7 @@ class RulesDatabase(object):
             sources_gen = get_default_source_descriptions()
         for source_file, source_descriptions in sources_gen:
             for descr in source_descriptions:
-                spec_name, arguments = descr.items()[0]
+                spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
                 self.sources.append(RulesSource(
                     spec,
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index eaeb3cc..bd36017 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -170,7 +170,7 @@ def verify_source_description(descr):
     if not isinstance(descr, dict):
         raise ValueError("Expected source description to be a dictionary, but "
                          "got '{0}'.".format(to_str(type(descr))))
-    keys = descr.keys()
+    keys = list(descr.keys())
     if not len(keys) == 1:
         raise ValueError("Expected source description to have one entry, but "
                          "got keys '{0}'.".format(keys))
-- 
2.43.0


From 3522578a72a210b0c43a7fc401a1dabdfd5bc41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 08/25] fix: raise ValueError for source descriptions with
 invalid spec name

---
 xylem/sources/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index bd36017..82f3559 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -178,7 +178,7 @@ def verify_source_description(descr):
         verify_spec_name(keys[0])
     except ValueError as e:
         raise_from(ValueError, "source description does not have valid "
-                   "spec name '{0}'".format(keys[0], e))
+                   "spec name '{0}'".format(keys[0]), e)
 
 
 def sources_cache_dir(cache_dir):
-- 
2.43.0


From 456b3e43f5cc01e9d9554d5411bbde93450d516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 09/25] fix: load source files in alphabetical order and ignore
 hidden files

---
 xylem/sources/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 82f3559..729caf6 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -85,12 +85,12 @@ def load_sources_from_path(path):
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     return _load_sources(
-        [os.path.join(path, s) for s in os.listdir(path)])
+        [os.path.join(path, s) for s in sorted(os.listdir(path))])
 
 
 def _load_sources(files):
     for file_path in files:
-        if file_path.startswith('.'):
+        if os.path.basename(file_path).startswith('.'):
             continue
         if not file_path.endswith('.yaml'):
             continue
-- 
2.43.0


From d397dc93969c075d303853cf9c67b6d5ab3f9213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 10/25] fix: make resolution objects hashable consistently with
 equality

---
 xylem/installers/installer_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 90e6fa8..32152a9 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -60,7 +60,9 @@ class Resolution(dict):
         return super(Resolution, self).__eq__(other)
 
     def __hash__(self):
-        return hash((type(self), tuple(self.items())))
+        # the hash must not depend on the order of entries, and the values
+        # (e.g. lists of options) may not be hashable
+        return hash((type(self), frozenset(self), self.get("package")))
 
     def __str__(self):
         return ' '.join(self.to_list())
-- 
2.43.0


From b65ef9afce3d1cdfc63dfaebc210f01bb89c5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 11/25] fix: correct checking for outdated and clearing of
 source caches

---
 xylem/sources/database.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index a4044da..f36f214 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -151,9 +151,10 @@ class RulesSource(object):
             return True
         cache_data = _read_cache(self.cache_file_path())
         # here we could also check xylem version if needed in the future
-        if self.spec.name != cache_data('spec_name'):
+        if self.spec.name != cache_data['spec_name']:
             return True
-        return self.spec.is_data_outdated(cache_data['data'], self.arguments)
+        return self.spec.is_data_outdated(cache_data['data'], self.arguments,
+                                          cache_data['time_data_loaded'])
 
     def is_cache_available(self):
         path = self.cache_file_path()
@@ -166,14 +167,14 @@ class RulesSource(object):
 
         :raises OSError: if cache file cannot be removed
         """
-        path = self.cache_file_path(self.sources_context)
+        path = self.cache_file_path()
         if os.path.exists(path):
             if is_verbose():
-                info("Removing cache file '%s'.", path)
+                info("Removing cache file '{0}'.".format(path))
             os.remove(path)
         else:
             if is_verbose():
-                info("Cache file '%s' already clear.", path)
+                info("Cache file '{0}' already clear.".format(path))
 
     def lookup(self, xylem_key, installer_context):
         installer_dict = self.spec.lookup(
-- 
2.43.0


From 931be0fbacfd24afe3f4e24ef5988eb8c332d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 12/25] fix: accept `interactive` in install_package_manager of
 builtin installers

---
 xylem/installers/plugins/apt.py      | 2 +-
 xylem/installers/plugins/homebrew.py | 2 +-
 xylem/installers/plugins/macports.py | 2 +-
 xylem/installers/plugins/pip.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xylem/installers/plugins/apt.py b/xylem/installers/plugins/apt.py
index 67fa757..a67b0ee 100644
--- a/xylem/installers/plugins/apt.py
+++ b/xylem/installers/plugins/apt.py
@@ -53,7 +53,7 @@ class AptInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: raise UserInterventionRequiredError with instructions,
         # handle this error specially and print instructions
         raise NotImplementedError()
diff --git a/xylem/installers/plugins/homebrew.py b/xylem/installers/plugins/homebrew.py
index 66c78f2..c4349ef 100644
--- a/xylem/installers/plugins/homebrew.py
+++ b/xylem/installers/plugins/homebrew.py
@@ -57,7 +57,7 @@ class HomebrewInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/macports.py b/xylem/installers/plugins/macports.py
index 5a302cb..6cebe6b 100644
--- a/xylem/installers/plugins/macports.py
+++ b/xylem/installers/plugins/macports.py
@@ -53,7 +53,7 @@ class MacportsInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 3ad68e8..32b4725 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -63,7 +63,7 @@ class PipInstaller(PackageManagerInstaller):
         installed = [row.split("==")[0] for row in installed]
         return [r for r in resolved if r.package not in installed]
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
         raise NotImplementedError()
 
-- 
2.43.0


From 84e19645ec7c169f09851b10ed24be75158b16d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 13/25] fix: do not change the cache with update(dry_run=True)

---
 xylem/update.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xylem/update.py b/xylem/update.py
index 09abf20..53da227 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -23,6 +23,8 @@ from xylem.sources import RulesDatabase
 
 from xylem.config import get_config
 
+from xylem.log_utils import info
+
 
 # TODO: remove handle_spec_urls (move some logic into the accoring
 # method in Rules database)
@@ -78,8 +80,13 @@ def update(dry_run=False, config=None, sources_context=None):
     if config is None:
         config = get_config()
     sources_context = sources_context or SourcesContext(config)
-    sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
+    if dry_run:
+        for source in database.sources:
+            info("Would load: {0} : {1}".
+                 format(source.spec.name, source.arguments))
+        return
+    sources_context.ensure_cache_dir()
     database.print_info = True
     # support partial update of local sources even without connectivity:
     database.raise_on_error = False
-- 
2.43.0


From 66a4d4eaa349c2ffab5bb4cea86cc856b552c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 14/25] fix: handle unset and invalid config groups in parsed
 yaml

---
 xylem/config_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a7b3c15..675626f 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1212,7 +1212,13 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-        data_group = data.get(group, {})
+        data_group = data.get(group, None)
+        if data_group == UNSET_YAML:
+            data_group = {}
+        if not isinstance(data_group, dict):
+            raise ConfigValueError(type_error_msg(
+                'dict', data_group,
+                what_for="value of config group '{}'".format(group)))
         for subname, item in six.iteritems(group_dict):
             process_item(config[group], data_group, subname, item)
     for name, item in six.iteritems(description.items):
-- 
2.43.0


From 93fe5448199f0fbca133fb39773ce2104ca47157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 15/25] fix: return the result of ceorce_config_dict

---
 xylem/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 675626f..624894c 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -355,6 +355,7 @@ def ceorce_config_dict(config, copy=False):
     result = ConfigDict()
     for k, v in six.iteritems(config):
         result[k] = ceorce_config_dict(v, copy=copy)
+    return result
 
 
 def copy_to_dict(config):
-- 
2.43.0


From 4b5a0460051971d85e43c8360af6bb74374cfb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 16/25] fix: return parser from create_command_parser, as
 needed by single command scripts

---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 2e3b342..33b295c 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -72,6 +72,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     command_defi['prepare_config'](get_config_description())
     add_config_arguments(parser)
     add_global_arguments(parser)
+    return parser
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From aaf5ff3ee91083bdf2fe075cb4bce4471dfb65d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 17/25] fix: disallow trailing newline in identifiers

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 58974e8..04734b3 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -280,7 +280,7 @@ def verify_rules_dict_identifier(identifier, kind, allow_keywords=[]):
                          format(kind, identifier))
     if identifier in rules_dict_whitelist:
         return
-    if not re.match('(?u)^[\w.’+-]+$', identifier):
+    if not re.match(r'(?u)^[\w.’+-]+\Z', identifier):
         raise ValueError(
             "{0} '{1}' has disallowed characters. Allowed are: alphanumeric, "
             "dash, dot, underscore.".format(kind, identifier))
-- 
2.43.0


From 663dca6d69d3bfedc650a2b18076cdf928bd1a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 18/25] fix: raise SpecParsingError instead of TypeError for
 malformed rules

---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 620f4fe..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        ValueError.__init__(self, msg)
+        super(SpecParsingError, self).__init__(msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 155504ffd92f639809c2a60634d31081dad2848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 19/25] fix: retry and wrap timeouts while waiting for or
 reading a response

---
 xylem/load_url.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index d436558..ac0696f 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -48,6 +48,7 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     while True:
         try:
             req = urlopen(url, timeout=timeout)
+            data = req.read()
         except HTTPError as e:
             if e.code == 503 and retry:
                 retry -= 1
@@ -62,9 +63,15 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except socket.timeout as e:
+            if retry:
+                retry -= 1
+                time.sleep(retry_period)
+            else:
+                raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                           format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    data = req.read()
     return to_str(data, encoding=encoding)
-- 
2.43.0


From aa4442b30d8a532c71487e1b4baf74b1ada30287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 20/25] fix: raise DownloadFailure for connection errors while
 loading a url

---
 xylem/load_url.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index ac0696f..fc344aa 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -18,6 +18,7 @@ from __future__ import unicode_literals
 
 import socket
 import time
+from six.moves.http_client import HTTPException
 from six.moves.urllib.error import HTTPError
 from six.moves.urllib.error import URLError
 from six.moves.urllib.request import urlopen
@@ -70,6 +71,10 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except (EnvironmentError, HTTPException) as e:
+            # e.g. connection reset or incomplete response while reading
+            raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                       format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
-- 
2.43.0


From ea28ad713e2a3efccb85f5b78143f2528d0aee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 21/25] fix: raise YAMLError for malformed YAML scalars

---
 xylem/yaml_utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xylem/yaml_utils.py b/xylem/yaml_utils.py
index b917ed0..c41a7e1 100644
--- a/xylem/yaml_utils.py
+++ b/xylem/yaml_utils.py
@@ -24,6 +24,8 @@ from __future__ import unicode_literals
 
 import yaml
 
+from xylem.exception import raise_from
+
 
 def load_yaml(data):
     """Parse a unicode string containing yaml.
@@ -43,7 +45,15 @@ def load_yaml(data):
     MyLoader.add_constructor(
         'tag:yaml.org,2002:str', MyLoader.construct_yaml_str)
 
-    return yaml.load(data, Loader=MyLoader)
+    try:
+        return yaml.load(data, Loader=MyLoader)
+    except (AttributeError, KeyError, ValueError) as e:
+        # raised by the yaml constructors for malformed scalars, e.g. a
+        # timestamp '2001-99-99' or '!!bool foo'
+        if isinstance(e, UnicodeError):
+            raise
+        raise_from(yaml.YAMLError, "failed to construct value: {0}".
+                   format(e), e)
 
 
 def dump_yaml(data, inline=False):
-- 
2.43.0


From 5970ebc3dfb2d9745e537d92749ab1460128329b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 22/25] fix: raise ConfigValueError for config data which is no
 dict

---
 xylem/config_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 624894c..fb7c5d8 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1210,6 +1210,8 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
         value = item.type.from_yaml(value)
         target_dict[key] = value
 
+    if not isinstance(data, dict):
+        raise ConfigValueError(type_error_msg('dict', data))
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-- 
2.43.0


From ab45ea8aced56f8d1a31db706344d50f93f24645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 23/25] fix: ignore unset list of keys in install_from

---
 xylem/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/resolve.py b/xylem/resolve.py
index f2a6716..11e04c0 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -72,7 +72,7 @@ def resolve(xylem_keys,
     #       `install-from "pip: python-*"`
     install_from_map = dict()
     for inst, keys in six.iteritems(config.install_from):
-        for k in keys:
+        for k in keys or []:
             if k in install_from_map:
                 error("ignoring 'install from {}' for key '{}'; "
                       "already configured to install from '{}'".
-- 
2.43.0


From 31c88ffbbcc87114ea678748582d5bfcf4cc3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 24/25] Revert "fix: raise SpecParsingError instead of
 TypeError for malformed rules"

This reverts commit 663dca6d69d3bfedc650a2b18076cdf928bd1a5d.
---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..620f4fe 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        super(SpecParsingError, self).__init__(msg)
+        ValueError.__init__(self, msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 817fdd0158076620966b4a8f0260eb8a9dbb2387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:47 +0000
Subject: [PATCH 25/25] fix: commands with an '@' (e.g. brew install
 python@3.8) made the installation fail

---
 xylem/install.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 08b5bc3..933d0d1 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -265,7 +265,7 @@ def install_resolutions(installer_name,
 
     # 2. else, run each install command set and collect errors
     for cmd in commands:
-        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
+        info(fmt("@!executing command: %s@|") % ' '.join(cmd))
         exitcode = subprocess.call(cmd)
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
-- 
2.43.0

