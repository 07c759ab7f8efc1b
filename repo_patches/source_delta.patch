From b50c06fbf29c5d6859a86b0b334050c494f069ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:57 +0000
Subject: [PATCH 01/76] fix: never leave partially written parsed data behind

A crash, a full disk or an I/O error while parsed data was being saved left
a truncated file, which made every later load fail.
---
 demod/datasets/base_loader.py | 67 +++++++++++++++++++++--------------
 demod/datasets/tou_loader.py  | 25 ++++++++-----
 demod/utils/file_helpers.py   | 30 ++++++++++++++++
 demod/utils/sparse.py         | 14 +++++---
 4 files changed, 96 insertions(+), 40 deletions(-)
 create mode 100644 demod/utils/file_helpers.py

diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index b664b4a..5df6b2c 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 from datetime import timedelta
 import datetime
 import inspect
+from ..utils.file_helpers import replace_on_success
 from ..utils.parse_helpers import lists_to_numpy_array, make_jsonable
 from ..utils.sim_types import AppliancesDict, StateLabels, Subgroup, Subgroups, TPM, TPMs
 from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
@@ -230,7 +231,7 @@ class DatasetLoader:
         file_path = os.path.join(self.parsed_path, file_name + ".json")
         # Only days, seconds and microseconds are stored internally,
         # in timedelta objects
-        with open(file_path, "w+") as f:
+        with replace_on_success(file_path, "w") as f:
             json.dump(
                 {
                     "days": step_size.days,
@@ -327,12 +328,18 @@ class DatasetLoader:
         else:
             raise TypeError("Arg 'array' must be ndarray or list or tuple.")
 
-        if compress:
-            np.savez_compressed(file_path, *array_list)
-        elif npz:
-            np.savez(file_path, *array_list)
-        else:
-            np.save(file_path, array)
+        # numpy only adds the extension to the name if it is missing
+        extension = '.npz' if (compress or npz) else '.npy'
+        if not file_path.endswith(extension):
+            file_path = file_path + extension
+
+        with replace_on_success(file_path) as f:
+            if compress:
+                np.savez_compressed(f, *array_list)
+            elif npz:
+                np.savez(f, *array_list)
+            else:
+                np.save(f, array)
 
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
@@ -383,7 +390,7 @@ class PopulationLoader(DatasetLoader):
                 population_dict['total_number']
              ) = self._parse_population_subgroups(population_type)
 
-            with open(app_file, "w+") as f:
+            with replace_on_success(app_file, "w") as f:
                 json.dump(make_jsonable(population_dict), f, indent=2)
 
         return (
@@ -438,7 +445,7 @@ class ApplianceLoader(DatasetLoader):
                     ).format(type(self).__name__)
                 )
 
-            with open(app_file, "w+") as f:
+            with replace_on_success(app_file, "w") as f:
                 json.dump(make_jsonable(appliance_dict), f, indent=2)
 
         return lists_to_numpy_array(appliance_dict)
@@ -486,7 +493,8 @@ class ApplianceLoader(DatasetLoader):
                 for name, load in names_dict.items():
                     parsed_dict[app_type + self._SPLIT_CHAR + name] = load
             # Compress as the load profiles might be quite heavy
-            np.savez_compressed(app_file, **parsed_dict)
+            with replace_on_success(app_file + '.npz') as f:
+                np.savez_compressed(f, **parsed_dict)
 
         return load_profiles_dict
 
@@ -546,7 +554,8 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             ownership_dict = self._parse_appliance_ownership_dict(subgroup)
-            np.savez(file_path, **ownership_dict)
+            with replace_on_success(file_path + '.npz') as f:
+                np.savez(f, **ownership_dict)
 
         return ownership_dict
 
@@ -601,7 +610,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_switchons(subgroup)
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -658,7 +667,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_consumption(subgroup)
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -718,7 +727,7 @@ class ApplianceLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_name)
             targets_dict = self._parse_yearly_target_duration(subgroup)
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(make_jsonable(targets_dict), f, indent=2)
 
         return targets_dict
@@ -782,8 +791,10 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as f_err:
             self._warn_could_not_load_parsed(f_err, file_path)
             clearness_tpms, labels, step_size = self._parse_clearness_tpms()
-            np.save(file_path, clearness_tpms)
-            np.save(labels_path, labels)
+            with replace_on_success(file_path + '.npy') as f:
+                np.save(f, clearness_tpms)
+            with replace_on_success(labels_path + '.npy') as f:
+                np.save(f, labels)
             self._save_step_size(step_size_file_name, step_size)
 
         return clearness_tpms, labels, step_size
@@ -807,7 +818,7 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "temperatures_arma.json")
             geo_dic = self._parse_temperatures_arma()
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(geo_dic, f)
 
         return geo_dic
@@ -838,7 +849,7 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "geographic_data.json")
             geo_dic = self._parse_geographic_data()
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(geo_dic, f)
 
         return geo_dic
@@ -880,7 +891,8 @@ class ClimateLoader(DatasetLoader):
         except FileNotFoundError as err:
             self._warn_could_not_load_parsed(err, file_path)
             climate_dict = self._parse_historical_climate_data()
-            np.savez_compressed(file_path, **climate_dict)
+            with replace_on_success(file_path + '.npz') as f:
+                np.savez_compressed(f, **climate_dict)
 
         # Check for aware datetime
         if start_datetime.tzinfo is not None:
@@ -941,7 +953,7 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "fisher_lighting.json")
             fisher_dic = self._parse_fisher_lighting()
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(fisher_dic, f)
 
         return fisher_dic
@@ -966,7 +978,7 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, "crest_lighting.json")
             crest_dic = self._parse_crest_lighting()
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(make_jsonable(crest_dic), f)
 
         return lists_to_numpy_array(crest_dic)
@@ -1002,7 +1014,7 @@ class LightingLoader(DatasetLoader):
                 'bulbs_consumption': bulbs_consumption,
                 'bulbs_penetration': bulbs_penetration,
             }
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(make_jsonable(bulbs_dic), f)
 
         return (
@@ -1039,7 +1051,8 @@ class LightingLoader(DatasetLoader):
         except FileNotFoundError as fnf_err:
             self._warn_could_not_load_parsed(fnf_err, file_path)
             bulbs = self._parse_bulbs_config(subgroup)
-            np.save(file_path, bulbs)
+            with replace_on_success(file_path + '.npy') as f:
+                np.save(f, bulbs)
 
         return bulbs
 
@@ -1075,7 +1088,7 @@ class LightingLoader(DatasetLoader):
                     'mean': mean,
                     'std': std,
                 }
-            with open(file_path, "w+") as f:
+            with replace_on_success(file_path, "w") as f:
                 json.dump(dic, f)
 
         return dic['mean'], dic['std']
@@ -1117,7 +1130,7 @@ class HeatingLoader(DatasetLoader):
 
             buildings_dict = self._parse_buildings_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with replace_on_success(app_file, "w") as f:
                 json.dump(make_jsonable(buildings_dict), f, indent=2)
 
         return lists_to_numpy_array(buildings_dict)
@@ -1149,7 +1162,7 @@ class HeatingLoader(DatasetLoader):
 
             heating_system_dict = self._parse_heating_system_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with replace_on_success(app_file, "w") as f:
                 json.dump(make_jsonable(heating_system_dict), f, indent=2)
 
         return lists_to_numpy_array(heating_system_dict)
@@ -1181,7 +1194,7 @@ class HeatingLoader(DatasetLoader):
 
             thermostat_dict = self._parse_thermostat_dict(subgroup)
 
-            with open(app_file, "w+") as f:
+            with replace_on_success(app_file, "w") as f:
                 json.dump(make_jsonable(thermostat_dict), f, indent=2)
 
         return lists_to_numpy_array(thermostat_dict)
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index 3a35467..eedaab5 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -1,5 +1,6 @@
 from datetime import datetime, time
 from demod.utils.monte_carlo import PDFs
+from demod.utils.file_helpers import replace_on_success
 from demod.utils.parse_helpers import make_jsonable
 from demod.utils.subgroup_handling import subgroup_string
 import os
@@ -78,14 +79,15 @@ class LoaderTOU(DatasetLoader):
             tpm_dict['labels'] = labels
             tpm_dict['initial_pdf'] = initial_pdf
 
-            np.savez(file_path, **tpm_dict)
+            with replace_on_success(file_path + '.npz') as f:
+                np.savez(f, **tpm_dict)
 
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with replace_on_success(legend_path, 'w') as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return tpm, labels, initial_pdf
@@ -146,14 +148,15 @@ class LoaderTOU(DatasetLoader):
                 labels, initial_pdf, initial_duration_pdfs
             )
 
-            np.savez(file_path, **tpm_dict)
+            with replace_on_success(file_path + '.npz') as f:
+                np.savez(f, **tpm_dict)
 
             # Saves a legend of the files created
             legend_path = (
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with replace_on_success(legend_path, 'w') as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return tpm, duration_pdfs, labels, initial_pdf, initial_duration_pdfs
@@ -222,7 +225,7 @@ class LoaderTOU(DatasetLoader):
                 self.parsed_path_activity + os.sep
                 + subgroup_str + '_dict_legend.json'
             )
-            with open(legend_path, 'w') as fp:
+            with replace_on_success(legend_path, 'w') as fp:
                 json.dump(make_jsonable(legend), fp, indent=4)
 
         return sparse_tpm, labels, activity_labels, initial_pdf
@@ -288,7 +291,8 @@ class LoaderTOU(DatasetLoader):
             activity_profiles = self._parse_activity_profiles(
                 subgroup
             )
-            np.savez(file_path, **activity_profiles)
+            with replace_on_success(file_path + '.npz') as f:
+                np.savez(f, **activity_profiles)
 
         return activity_profiles
 
@@ -347,7 +351,8 @@ class LoaderTOU(DatasetLoader):
             act_occurences = self._parse_daily_activity_starts(
                 subgroup
             )
-            np.savez(file_path, **act_occurences)
+            with replace_on_success(file_path + '.npz') as f:
+                np.savez(f, **act_occurences)
 
         return act_occurences
 
@@ -395,7 +400,8 @@ class LoaderTOU(DatasetLoader):
             act_durations = self._parse_activity_duration(
                 subgroup
             )
-            np.savez(file_path, **act_durations)
+            with replace_on_success(file_path + '.npz') as f:
+                np.savez(f, **act_durations)
 
         return act_durations
 
@@ -432,7 +438,8 @@ class LoaderTOU(DatasetLoader):
             act_proabs = self._parse_activity_probabilities(
                 subgroup
             )
-            np.savez(file_path, **act_proabs)
+            with replace_on_success(file_path + '.npz') as f:
+                np.savez(f, **act_proabs)
         return act_proabs
 
     def _parse_activity_probabilities(
diff --git a/demod/utils/file_helpers.py b/demod/utils/file_helpers.py
new file mode 100644
index 0000000..f059b78
--- /dev/null
+++ b/demod/utils/file_helpers.py
@@ -0,0 +1,30 @@
+"""Helpers for writing files such that a crash never leaves a partial file."""
+from contextlib import contextmanager
+import os
+import uuid
+
+
+@contextmanager
+def replace_on_success(path: str, mode: str = 'wb'):
+    """Open a file that appears at path only once it is fully written.
+
+    The content is written to a temporary file of the same directory,
+    which replaces path when the with block ends without error.
+    If the program stops or fails before, path is left unchanged.
+
+    Args:
+        path: The path of the file to write.
+        mode: The mode in which the file is opened. Defaults to 'wb'.
+    """
+    temporary_path = '{}.{}.tmp'.format(path, uuid.uuid4().hex)
+    try:
+        with open(temporary_path, mode) as f:
+            yield f
+            # The content must be on the disk before the file is visible
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temporary_path, path)
+    except BaseException:
+        if os.path.isfile(temporary_path):
+            os.remove(temporary_path)
+        raise
diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 4d91c90..edc6d42 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -9,6 +9,8 @@ from typing import Tuple
 import warnings
 import numpy as np
 
+from .file_helpers import replace_on_success
+
 
 class SparseTPM():
     """A sparse implementation of the Transition probability Matrices.
@@ -214,10 +216,14 @@ class SparseTPM():
         Args:
             path: The path to which the TPM should be saved.
         """
-        np.save(path+'_tpm_times', self.times)
-        np.save(path+'_tpm_inds_from', self.inds_from)
-        np.save(path+'_tpm_inds_to', self.inds_to)
-        np.save(path+'_tpm_values', self.values)
+        with replace_on_success(path+'_tpm_times.npy') as f:
+            np.save(f, self.times)
+        with replace_on_success(path+'_tpm_inds_from.npy') as f:
+            np.save(f, self.inds_from)
+        with replace_on_success(path+'_tpm_inds_to.npy') as f:
+            np.save(f, self.inds_to)
+        with replace_on_success(path+'_tpm_values.npy') as f:
+            np.save(f, self.values)
 
     @ staticmethod
     def load(path: str) -> SparseTPM:
-- 
2.43.0


From 1ee6394bd0ba178f9aeb21198169d15b0ae59a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:33 +0000
Subject: [PATCH 02/76] fix: loaders fail when another program creates the
 dataset directories

The directories were created after checking that they do not exist, which
raised FileExistsError when two programs did so at the same time.
---
 demod/datasets/CREST/loader.py            |  4 +--
 demod/datasets/OpenPowerSystems/loader.py |  4 +--
 demod/datasets/RenewablesNinja/loader.py  |  7 ++--
 demod/datasets/base_loader.py             | 40 ++++++++---------------
 demod/datasets/tou_loader.py              |  8 ++---
 demod/datasets/tracebase/loader.py        |  4 +--
 demod/utils/file_helpers.py               | 15 +++++++++
 7 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 56e7582..8c829f2 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -38,6 +38,7 @@ from ...utils.subgroup_handling import (
 from ...utils.distribution_functions import rescale_pdf
 from ...utils.parse_helpers import remove_spaces, translate_1d, bulbs_stats_from_config
 from ..tou_loader import LoaderTOU
+from ...utils.file_helpers import make_directory
 from .utils import (
     crest_act_to_demod,
     crest_appname_to_demod_type,
@@ -209,8 +210,7 @@ class Crest(
         self._check_crest_subgroup(subgroup)
 
         tpm_path = self.parsed_path + os.sep + "4_States"
-        if not os.path.exists(tpm_path):
-            os.mkdir(tpm_path)
+        make_directory(tpm_path)
         tpm_file_name = "".join(
             ("4_States", os.sep, "tpm__", subgroup_string(subgroup))
         )
diff --git a/demod/datasets/OpenPowerSystems/loader.py b/demod/datasets/OpenPowerSystems/loader.py
index dd07b87..4aaa3ad 100644
--- a/demod/datasets/OpenPowerSystems/loader.py
+++ b/demod/datasets/OpenPowerSystems/loader.py
@@ -8,6 +8,7 @@ import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
 from ...utils.countries import country_name_to_code
+from ...utils.file_helpers import make_directory
 
 
 class OpenPowerSystemClimate(ClimateLoader):
@@ -36,8 +37,7 @@ class OpenPowerSystemClimate(ClimateLoader):
         self.parsed_path_climate = os.path.join(
             self.parsed_path_climate, country_name)
         # creates the parsed path
-        if not os.path.exists(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_directory(self.parsed_path_climate)
 
         self.country = country_name
 
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index a195e7b..24e4d74 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -15,6 +15,7 @@ import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
 from ...utils.countries import country_name_to_code, is_country_code
+from ...utils.file_helpers import make_directory
 
 
 class NinjaRenewablesClimate(ClimateLoader):
@@ -69,11 +70,9 @@ class NinjaRenewablesClimate(ClimateLoader):
         self.parsed_path_climate = os.path.join(
             self.parsed_path_climate, country_name)
         # creates the parsed path
-        if not os.path.exists(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_directory(self.parsed_path_climate)
         # Creates the raw path
-        if not os.path.exists(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_directory(self.raw_path)
 
         self.country = country_name
 
diff --git a/demod/datasets/base_loader.py b/demod/datasets/base_loader.py
index 5df6b2c..a25d41c 100644
--- a/demod/datasets/base_loader.py
+++ b/demod/datasets/base_loader.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from datetime import timedelta
 import datetime
 import inspect
-from ..utils.file_helpers import replace_on_success
+from ..utils.file_helpers import make_directory, replace_on_success
 from ..utils.parse_helpers import lists_to_numpy_array, make_jsonable
 from ..utils.sim_types import AppliancesDict, StateLabels, Subgroup, Subgroups, TPM, TPMs
 from ..utils.subgroup_handling import remove_time_attributues, subgroup_string
@@ -87,15 +87,12 @@ class DatasetLoader:
         self.parsed_path = os.path.join(self.DATASET_PATH, "parsed_data")
 
         # Creates the directories if they do not exist
-        if not os.path.exists(self.parsed_path):
-            os.mkdir(self.parsed_path)
-        if not os.path.exists(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_directory(self.parsed_path)
+        make_directory(self.raw_path)
 
         if version is not None:
             self.parsed_path = os.path.join(self.parsed_path, version)
-            if not os.path.isdir(self.parsed_path):
-                os.mkdir(self.parsed_path)
+            make_directory(self.parsed_path)
 
         self.version = version
 
@@ -125,7 +122,7 @@ class DatasetLoader:
 
         # clear the parsed directory
         shutil.rmtree(self.parsed_path)
-        os.mkdir(self.parsed_path)
+        make_directory(self.parsed_path)
 
     def _raise_missing_raw(
         self,
@@ -343,8 +340,7 @@ class DatasetLoader:
 
     def _check_make_parsed_dir(self):
         """Create the parsed path dir if it does not exists."""
-        if not os.path.isdir(self.parsed_path):
-            os.mkdir(self.parsed_path)
+        make_directory(self.parsed_path)
 
 
 class PopulationLoader(DatasetLoader):
@@ -355,8 +351,7 @@ class PopulationLoader(DatasetLoader):
         self.parsed_population_folder = os.path.join(
             self.parsed_path, 'population'
         )
-        if not os.path.isdir(self.parsed_population_folder):
-            os.mkdir(self.parsed_population_folder)
+        make_directory(self.parsed_population_folder)
 
     def load_population_subgroups(
         self, population_type: str,
@@ -543,8 +538,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_ownership"
         parsed_path_ownership = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_ownership):
-            os.mkdir(parsed_path_ownership)
+        make_directory(parsed_path_ownership)
 
         file_name = folder_name + os.sep + "ownership__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -598,8 +592,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_directory(parsed_path_targets)
 
         file_name = folder_name + os.sep + "switchons__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -655,8 +648,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_directory(parsed_path_targets)
 
         file_name = folder_name + os.sep + "consumption__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -715,8 +707,7 @@ class ApplianceLoader(DatasetLoader):
         # put in a dedicated folder
         folder_name = "appliance_targets"
         parsed_path_targets = self.parsed_path + os.sep + folder_name
-        if not os.path.exists(parsed_path_targets):
-            os.mkdir(parsed_path_targets)
+        make_directory(parsed_path_targets)
 
         file_name = folder_name + os.sep + "duration__" + subgroup_str
         file_path = os.path.join(self.parsed_path, file_name)
@@ -763,8 +754,7 @@ class ClimateLoader(DatasetLoader):
         """
         super().__init__(**kwargs)
         self.parsed_path_climate = os.path.join(self.parsed_path, "climate")
-        if not os.path.isdir(self.parsed_path_climate):
-            os.mkdir(self.parsed_path_climate)
+        make_directory(self.parsed_path_climate)
 
     def load_clearness_tpms(self) -> Tuple[TPM, StateLabels, timedelta]:
         """Return TPM for the clearness of the sky, with the labels.
@@ -936,8 +926,7 @@ class LightingLoader(DatasetLoader):
         self.parsed_bulbs_folder = os.path.join(
             self.parsed_path, 'bulbs'
         )
-        if not os.path.isdir(self.parsed_bulbs_folder):
-            os.mkdir(self.parsed_bulbs_folder)
+        make_directory(self.parsed_bulbs_folder)
 
     def load_fisher_lighting(self) -> Dict[str, Any]:
         """Load data for
@@ -1107,8 +1096,7 @@ class HeatingLoader(DatasetLoader):
         self.parsed_heating_folder = os.path.join(
             self.parsed_path, 'heating'
         )
-        if not os.path.isdir(self.parsed_heating_folder):
-            os.mkdir(self.parsed_heating_folder)
+        make_directory(self.parsed_heating_folder)
     def load_buildings_dict(
         self, subgroup: Subgroup = {}
     ) -> Dict[str, np.ndarray]:
diff --git a/demod/datasets/tou_loader.py b/demod/datasets/tou_loader.py
index eedaab5..565f624 100644
--- a/demod/datasets/tou_loader.py
+++ b/demod/datasets/tou_loader.py
@@ -1,6 +1,6 @@
 from datetime import datetime, time
 from demod.utils.monte_carlo import PDFs
-from demod.utils.file_helpers import replace_on_success
+from demod.utils.file_helpers import make_directory, replace_on_success
 from demod.utils.parse_helpers import make_jsonable
 from demod.utils.subgroup_handling import subgroup_string
 import os
@@ -41,8 +41,7 @@ class LoaderTOU(DatasetLoader):
         # make the dir of the parsed path
         self._check_make_parsed_dir()
         # make the dir of the parsed path activity type
-        if not os.path.exists(self.parsed_path_activity):
-            os.mkdir(self.parsed_path_activity)
+        make_directory(self.parsed_path_activity)
 
     def load_tpm(
         self, subgroup: Subgroup
@@ -306,8 +305,7 @@ class LoaderTOU(DatasetLoader):
             self.parsed_path_activity,
             'ActivityStats'
         )
-        if not os.path.isdir(self.parsed_path_activity_stats):
-            os.mkdir(self.parsed_path_activity_stats)
+        make_directory(self.parsed_path_activity_stats)
 
     def load_daily_activity_starts(
         self, subgroup: Subgroup
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 6363ed5..55ca2c8 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -24,6 +24,7 @@ import numpy as np
 import pandas as pd
 
 from ..base_loader import ApplianceLoader
+from ...utils.file_helpers import make_directory
 
 
 traceback_type_to_demod = {
@@ -112,8 +113,7 @@ class Tracebase(ApplianceLoader):
             clear_parsed_data=clear_parsed_data or update_raw_data
         )
         self.step_size = step_size
-        if not os.path.isdir(self.raw_path):
-            os.mkdir(self.raw_path)
+        make_directory(self.raw_path)
         raw_zip_filepath = self.raw_path + os.sep + 'raw_github.zip'
         # Check if it needs to download the raw data
         if update_raw_data:
diff --git a/demod/utils/file_helpers.py b/demod/utils/file_helpers.py
index f059b78..b73352d 100644
--- a/demod/utils/file_helpers.py
+++ b/demod/utils/file_helpers.py
@@ -28,3 +28,18 @@ def replace_on_success(path: str, mode: str = 'wb'):
         if os.path.isfile(temporary_path):
             os.remove(temporary_path)
         raise
+
+
+def make_directory(path: str):
+    """Create the directory if it does not exist.
+
+    Another program might be creating it at the same time.
+
+    Args:
+        path: The path of the directory.
+    """
+    try:
+        os.mkdir(path)
+    except FileExistsError:
+        if not os.path.isdir(path):
+            raise
-- 
2.43.0


From f8344c213aee41a65a88bf8e3f4e0588d9caa184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 03/76] fix: interrupted downloads are never completed

A download that failed half-way left a truncated file, and an archive of
which the extraction was interrupted was never extracted again, because the
file was found on the next start.
---
 demod/datasets/CREST/loader.py           | 11 +++---
 demod/datasets/DESTATIS/loader.py        |  9 ++---
 demod/datasets/GermanTOU/loader.py       | 27 +++++++-------
 demod/datasets/Germany/loader.py         |  8 ++---
 demod/datasets/RenewablesNinja/loader.py | 19 +++++-----
 demod/datasets/tracebase/loader.py       | 19 +++++-----
 demod/utils/file_helpers.py              | 46 ++++++++++++++++++++++++
 7 files changed, 88 insertions(+), 51 deletions(-)

diff --git a/demod/datasets/CREST/loader.py b/demod/datasets/CREST/loader.py
index 8c829f2..4fe4498 100644
--- a/demod/datasets/CREST/loader.py
+++ b/demod/datasets/CREST/loader.py
@@ -5,10 +5,8 @@ Loads data from the crest spreadsheet.
 
 from datetime import time, timedelta
 from sys import version
-import shutil
 import warnings
 import os
-from urllib import request
 from typing import Any, List, Tuple, Dict, Union
 
 import pandas as pd
@@ -38,7 +36,9 @@ from ...utils.subgroup_handling import (
 from ...utils.distribution_functions import rescale_pdf
 from ...utils.parse_helpers import remove_spaces, translate_1d, bulbs_stats_from_config
 from ..tou_loader import LoaderTOU
-from ...utils.file_helpers import make_directory
+from ...utils.file_helpers import (
+    download, make_directory, replace_on_success
+)
 from .utils import (
     crest_act_to_demod,
     crest_appname_to_demod_type,
@@ -100,9 +100,8 @@ class Crest(
                 raise ValueError('Unkonw Version {} of CREST.'.format(version))
             # Reads the url and  download the
             print('Downloading CREST Model to : {}'.format(self.raw_file_path))
-            with request.urlopen(DOWNLOAD_URL_BY_VERSION[version]) as response:
-                with open(self.raw_file_path, 'wb') as f:
-                    shutil.copyfileobj(response, f)
+            with replace_on_success(self.raw_file_path) as f:
+                download(DOWNLOAD_URL_BY_VERSION[version], f)
 
     def load_population_subgroups(
         self, population_type: str = "crest",
diff --git a/demod/datasets/DESTATIS/loader.py b/demod/datasets/DESTATIS/loader.py
index 0faf75c..5e2717f 100644
--- a/demod/datasets/DESTATIS/loader.py
+++ b/demod/datasets/DESTATIS/loader.py
@@ -3,9 +3,9 @@ import os
 from typing import Dict, List, Tuple, Union
 import numpy as np
 import pandas as pd
-from urllib import request
 from ...utils.sim_types import AppliancesDict, Subgroup, Subgroups
 from ...utils.appliances import assign_ownership_from_prob1_and_number
+from ...utils.file_helpers import download, replace_on_success
 from ...utils.subgroup_handling import remove_time_attributues
 from ..base_loader import ApplianceLoader, PopulationLoader
 
@@ -142,11 +142,8 @@ class Destatis(ApplianceLoader, PopulationLoader):
                 self.DATASET_NAME, 'appliance ownership', url
             ))
             # Reads the url and  download the zip archive
-            response = request.urlopen(url)
-            datatowrite = response.read()
-            with open(data_path, 'wb') as f:
-                f.write(datatowrite)
-
+            with replace_on_success(data_path) as f:
+                download(url, f)
 
         df = pd.read_excel(data_path, header=[0, 1, 2])
 
diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 50a3f34..17c356f 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -7,11 +7,13 @@ from typing import Tuple
 import numpy as np
 from urllib import request, error
 import shutil
-import zipfile
 
 from ..tou_loader import LoaderTOU
 from ..base_loader import GITHUB_REPO_URL, PopulationLoader
 from ..DESTATIS.loader import Destatis
+from ...utils.file_helpers import (
+    download, extract_zip, make_directory, replace_on_success
+)
 from ...utils.parse_helpers import convert_states, states_to_transitions
 from ...utils.sim_types import *
 from ...utils.monte_carlo import PDFs
@@ -85,15 +87,18 @@ class GTOU(LoaderTOU, PopulationLoader):
             self._download_parsed_folder_github()
 
     def _clear_parsed_data(self):
-        # clear the parsed directory
-        shutil.rmtree(self.parsed_path + os.sep + self.activity_type)
-        os.mkdir(self.parsed_path + os.sep + self.activity_type)
-        # Also cleans the zip file
+        # Cleans the zip file first, so that it is downloaded and extracted
+        # again, even if the clearing of the parsed data was interrupted
         parsed_zip_filepath = (
             self.raw_path + os.sep + self.activity_type + '.zip'
         )
         if os.path.isfile(parsed_zip_filepath):
             os.remove(parsed_zip_filepath)
+        # clear the parsed directory
+        parsed_path_activity = self.parsed_path + os.sep + self.activity_type
+        if os.path.isdir(parsed_path_activity):
+            shutil.rmtree(parsed_path_activity)
+        make_directory(parsed_path_activity)
 
     def _raw_file_exists(self):
         dir_name = os.path.dirname(os.path.realpath(__file__))
@@ -133,8 +138,11 @@ class GTOU(LoaderTOU, PopulationLoader):
             self.DATASET_NAME, self.activity_type, url
         ))
         # Reads the url and  download the zip archive
+        # The zip file exists only once all its content is extracted
         try:
-            response = request.urlopen(url)
+            with replace_on_success(parsed_zip_filepath, 'w+b') as f:
+                download(url, f)
+                extract_zip(f, self.parsed_path_activity)
         except error.HTTPError as e:
             if e.code == 404:
                 raise FileNotFoundError((
@@ -143,13 +151,6 @@ class GTOU(LoaderTOU, PopulationLoader):
                 ).format(self.activity_type, GITHUB_REPO_URL))
             else:
                 raise e
-        datatowrite = response.read()
-        with open(parsed_zip_filepath, 'wb') as f:
-            f.write(datatowrite)
-        # Now the file is downloaded
-        with zipfile.ZipFile(parsed_zip_filepath, 'r') as zip_obj:
-            zip_obj.extractall(self.parsed_path_activity)
-
 
     def _parse_tpm(self, subgroup: Subgroup):
         if self.activity_type == '4_States':
diff --git a/demod/datasets/Germany/loader.py b/demod/datasets/Germany/loader.py
index fcc7ff7..27b360f 100644
--- a/demod/datasets/Germany/loader.py
+++ b/demod/datasets/Germany/loader.py
@@ -1,12 +1,12 @@
 """Dataset loaders for Germany."""
 import datetime
 import os
-from urllib import request
 
 import numpy as np
 import pandas as pd
 
 from ...utils.sim_types import AppliancesDict, Subgroup, Subgroups
+from ...utils.file_helpers import download, replace_on_success
 from ...utils.parse_helpers import remove_spaces
 from typing import Any, Dict, List, Tuple
 from ..base_loader import (
@@ -87,10 +87,8 @@ class GermanDataHerus(
             print('Downloading {} excell sheet for {} from {}.'.format(
                 self.DATASET_NAME, version, url
             ))
-            response = request.urlopen(url)
-            datatowrite = response.read()
-            with open(self.raw_file_path, 'wb') as f:
-                f.write(datatowrite)
+            with replace_on_success(self.raw_file_path) as f:
+                download(url, f)
 
         self.refresh_time = self.activity_data.refresh_time
 
diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 24e4d74..e45a3db 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -8,14 +8,14 @@ from datetime import timedelta
 import os
 from typing import Any, Dict
 import urllib.request
-import shutil
-import zipfile
 
 import numpy as np
 import pandas as pd
 from ..base_loader import ClimateLoader
 from ...utils.countries import country_name_to_code, is_country_code
-from ...utils.file_helpers import make_directory
+from ...utils.file_helpers import (
+    download, make_directory, replace_on_success
+)
 
 
 class NinjaRenewablesClimate(ClimateLoader):
@@ -112,13 +112,12 @@ class NinjaRenewablesClimate(ClimateLoader):
         request = urllib.request.Request(country_url, None, headers)
 
         # Reads the url and  download the
-        with urllib.request.urlopen(request) as response:
-            with open(self.raw_file_path, 'wb') as f:
-                shutil.copyfileobj(response, f)
-        print('download finished')
-        # Now the file is downloaded, we can remove old parsed data
-        for f in os.listdir(self.parsed_path_climate):
-            os.remove(os.path.join(self.parsed_path_climate, f))
+        with replace_on_success(self.raw_file_path) as f:
+            download(request, f)
+            print('download finished')
+            # Now the content is downloaded, we can remove old parsed data
+            for name in os.listdir(self.parsed_path_climate):
+                os.remove(os.path.join(self.parsed_path_climate, name))
 
 
 
diff --git a/demod/datasets/tracebase/loader.py b/demod/datasets/tracebase/loader.py
index 55ca2c8..f8c5e3c 100644
--- a/demod/datasets/tracebase/loader.py
+++ b/demod/datasets/tracebase/loader.py
@@ -15,16 +15,15 @@ ICT for Sustainability (SustainIT), 2012.
 """
 from datetime import datetime, timedelta
 import os
-import urllib.request
-import shutil
 from typing import Any
-import zipfile
 
 import numpy as np
 import pandas as pd
 
 from ..base_loader import ApplianceLoader
-from ...utils.file_helpers import make_directory
+from ...utils.file_helpers import (
+    download, extract_zip, make_directory, replace_on_success
+)
 
 
 traceback_type_to_demod = {
@@ -116,19 +115,17 @@ class Tracebase(ApplianceLoader):
         make_directory(self.raw_path)
         raw_zip_filepath = self.raw_path + os.sep + 'raw_github.zip'
         # Check if it needs to download the raw data
-        if update_raw_data:
+        if update_raw_data and os.path.isfile(raw_zip_filepath):
             os.remove(raw_zip_filepath)
         if not os.path.isfile(raw_zip_filepath):
             download_url = 'https://github.com/areinhardt/tracebase/archive/refs/heads/master.zip'
             print('Downloading tracebase raw data from {}.'.format(download_url))
             print('This can take some time.')
             # Reads the url and  download the zip archive
-            with  urllib.request.urlopen(download_url) as response:
-                with open(raw_zip_filepath, 'wb') as f:
-                    shutil.copyfileobj(response, f)
-            # Now the file is downloaded
-            with zipfile.ZipFile(raw_zip_filepath, 'r') as zip_obj:
-                zip_obj.extractall(self.raw_path)
+            # The zip file exists only once all its content is extracted
+            with replace_on_success(raw_zip_filepath, 'w+b') as f:
+                download(download_url, f)
+                extract_zip(f, self.raw_path)
 
     def _parse_real_profiles_dict(self, profiles_type: str):
         if profiles_type == 'switchedON':
diff --git a/demod/utils/file_helpers.py b/demod/utils/file_helpers.py
index b73352d..d91ebad 100644
--- a/demod/utils/file_helpers.py
+++ b/demod/utils/file_helpers.py
@@ -1,7 +1,12 @@
 """Helpers for writing files such that a crash never leaves a partial file."""
 from contextlib import contextmanager
+from http.client import IncompleteRead
 import os
+import shutil
+import tempfile
+from urllib import request
 import uuid
+import zipfile
 
 
 @contextmanager
@@ -43,3 +48,44 @@ def make_directory(path: str):
     except FileExistsError:
         if not os.path.isdir(path):
             raise
+
+
+def download(url, file):
+    """Write the content found at the url to the file.
+
+    Args:
+        url: The url, or the request, to open.
+        file: The binary file object in which the content is written.
+
+    Raises:
+        IncompleteRead: If the connection was closed too early.
+    """
+    with request.urlopen(url) as response:
+        shutil.copyfileobj(response, file)
+        # copyfileobj does not notice that the content was cut
+        missing_length = getattr(response, 'length', None)
+    if missing_length:
+        raise IncompleteRead(b'', missing_length)
+
+
+def extract_zip(file, directory: str):
+    """Extract the content of a zip archive in the directory.
+
+    Existing files are replaced only by complete files.
+
+    Args:
+        file: The file object of the archive.
+        directory: The directory where to extract.
+    """
+    with tempfile.TemporaryDirectory(dir=directory) as temporary_directory:
+        with zipfile.ZipFile(file, 'r') as zip_obj:
+            zip_obj.extractall(temporary_directory)
+        for path, _, file_names in os.walk(temporary_directory):
+            destination = os.path.normpath(os.path.join(
+                directory, os.path.relpath(path, temporary_directory)
+            ))
+            make_directory(destination)
+            for name in file_names:
+                os.replace(
+                    os.path.join(path, name), os.path.join(destination, name)
+                )
-- 
2.43.0


From 9646d95df04ba5f7099a89d96857f96596a46c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:42 +0000
Subject: [PATCH 04/76] fix: Ninja climate returned the data of another
 weighting

The parsed climate data was shared between the population and the land area
weighted data of a country.
---
 demod/datasets/RenewablesNinja/loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index e45a3db..d3e3e35 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -67,8 +67,12 @@ class NinjaRenewablesClimate(ClimateLoader):
         """
         super().__init__(**kwargs)
         # Creates the path for the requested country
+        # The parsed data also depends on the weighting of the raw data
         self.parsed_path_climate = os.path.join(
-            self.parsed_path_climate, country_name)
+            self.parsed_path_climate,
+            country_name if weighted_type == 'population'
+            else country_name + '_' + weighted_type
+        )
         # creates the parsed path
         make_directory(self.parsed_path_climate)
         # Creates the raw path
-- 
2.43.0


From 9d12663b1203491dc4f24be4d6042128dc6b5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 05/76] fix: archives and climate data damaged by a power loss
 or another program

The extracted files were not on the disk when the archive was marked as
extracted, and programs that download the climate data at the same time
removed each other's files.
---
 demod/datasets/RenewablesNinja/loader.py | 7 ++++++-
 demod/utils/file_helpers.py              | 7 ++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index d3e3e35..29d7cdd 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -121,7 +121,12 @@ class NinjaRenewablesClimate(ClimateLoader):
             print('download finished')
             # Now the content is downloaded, we can remove old parsed data
             for name in os.listdir(self.parsed_path_climate):
-                os.remove(os.path.join(self.parsed_path_climate, name))
+                if name.endswith('.tmp'):
+                    continue  # Another program is writing it
+                try:
+                    os.remove(os.path.join(self.parsed_path_climate, name))
+                except FileNotFoundError:
+                    pass  # Another program has already removed it
 
 
 
diff --git a/demod/utils/file_helpers.py b/demod/utils/file_helpers.py
index d91ebad..3227404 100644
--- a/demod/utils/file_helpers.py
+++ b/demod/utils/file_helpers.py
@@ -86,6 +86,7 @@ def extract_zip(file, directory: str):
             ))
             make_directory(destination)
             for name in file_names:
-                os.replace(
-                    os.path.join(path, name), os.path.join(destination, name)
-                )
+                file_path = os.path.join(path, name)
+                with open(file_path, 'rb') as f:
+                    os.fsync(f.fileno())
+                os.replace(file_path, os.path.join(destination, name))
-- 
2.43.0


From 03462e80eccf2ac51455143cb4182dde41bfc990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 06/76] fix: call the next-day callbacks at the end of the
 months too

The before_next_day callbacks compared the day numbers of the months, so
that they were never called between e.g. the 31st and the 1st.
---
 demod/simulators/base_simulators.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 444448e..41d2c84 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -927,7 +927,7 @@ class Callbacks():
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
             next_datetime = self.current_time + self.step_size
-            if next_datetime.day > self.current_time.day:
+            if next_datetime.date() != self.current_time.date():
                 self.on_before_next_day()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -942,9 +942,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            previous_day = self.current_time.day
+            previous_date = self.current_time.date()
             out = step_method(self, *args, **kwargs)
-            if self.current_time.day != previous_day:
+            if self.current_time.date() != previous_date:
                 self.on_after_next_day()
             return out
         decorated_step.__doc__ = step_method.__doc__
@@ -986,15 +986,16 @@ class Callbacks():
 # TODO: remove the following once backward compatibility is ensured
 def before_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        if (self.current_time + self.step_size).day > self.current_time.day:
+        next_datetime = self.current_time + self.step_size
+        if next_datetime.date() != self.current_time.date():
             self.on_before_next_day()
         return step_method(self, *args, **kwargs)
     return decorated_step
 def after_next_day_callback(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        previous_day = self.current_time.day
+        previous_date = self.current_time.date()
         out = step_method(self, *args, **kwargs)
-        if self.current_time.day != previous_day:
+        if self.current_time.date() != previous_date:
             self.on_after_next_day()
         return out
     return decorated_step
-- 
2.43.0


From d6ef6c64c324e37bb70d527a0dd5e11e3f5de514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 07/76] fix: call the 4 am callbacks for steps of any size

The callbacks looked only at the hours before and after the step, so that
they were missed when a step started at 4 am or jumped over the hour.
---
 demod/simulators/base_simulators.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 41d2c84..9383dbb 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -865,6 +865,12 @@ class TimeAwareSimulator(Simulator):
 # Type for the step method of the simulators (variable input, None output)
 
 
+def _day_from_4am(time: datetime.datetime) -> datetime.date:
+    """Return the day of a datetime, for days that start at 4 am."""
+    return (time - datetime.timedelta(hours=4)).date()
+
+
+
 class Callbacks():
     """Defines different Callbacks for TimeAwareSimulator children.
 
@@ -959,8 +965,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            next_hour = (self.current_time + self.step_size).hour
-            if next_hour == 4 and self.current_time.hour != 4:
+            next_datetime = self.current_time + self.step_size
+            if _day_from_4am(next_datetime) != _day_from_4am(
+                    self.current_time):
                 self.on_before_next_day_4am()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -975,9 +982,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self:TimeAwareSimulator, *args, **kwargs)-> None:
-            previous_hour = self.current_time.hour
+            previous_day = _day_from_4am(self.current_time)
             out = step_method(self, *args, **kwargs)
-            if self.current_time.hour == 4 and previous_hour != 4:
+            if _day_from_4am(self.current_time) != previous_day:
                 self.on_after_next_day_4am()
             return out
         decorated_step.__doc__ = step_method.__doc__
@@ -1001,16 +1008,16 @@ def after_next_day_callback(step_method):
     return decorated_step
 def before_next_day_callback_4am(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        next_hour = (self.current_time + self.step_size).hour
-        if  next_hour == 4 and self.current_time.hour != 4:
+        next_datetime = self.current_time + self.step_size
+        if _day_from_4am(next_datetime) != _day_from_4am(self.current_time):
             self.on_before_next_day_4am()
         return step_method(self, *args, **kwargs)
     return decorated_step
 def after_next_day_callback_4am(step_method):
     def decorated_step(self:TimeAwareSimulator, *args, **kwargs):
-        previous_hour = self.current_time.hour
+        previous_day = _day_from_4am(self.current_time)
         out = step_method(self, *args, **kwargs)
-        if self.current_time.hour == 4 and previous_hour != 4:
+        if _day_from_4am(self.current_time) != previous_day:
             self.on_after_next_day_4am()
         return out
     return decorated_step
-- 
2.43.0


From 806ccf5a7e24bec9d91c1918c1ab70dbf67ac23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 08/76] fix: call the refresh callbacks when no step starts at
 the refresh time

They required a step to start exactly at the refresh time, so that a
simulation started e.g. at 12:05 with 10 minutes steps never refreshed.
---
 demod/simulators/base_simulators.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 9383dbb..18a5f66 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -870,6 +870,18 @@ def _day_from_4am(time: datetime.datetime) -> datetime.date:
     return (time - datetime.timedelta(hours=4)).date()
 
 
+def _starts_after_refresh(sim: TimeAwareSimulator) -> bool:
+    """Return whether the step about to start is the first of its day, which
+    is the first one that starts at or after the refresh time.
+    """
+    refresh = datetime.datetime.combine(
+        sim.current_time.date(), sim.data.refresh_time,
+        tzinfo=sim.current_time.tzinfo
+    )
+    if refresh > sim.current_time:
+        refresh -= datetime.timedelta(days=1)
+    return sim.current_time - refresh < sim.step_size
+
 
 class Callbacks():
     """Defines different Callbacks for TimeAwareSimulator children.
@@ -900,7 +912,7 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            if self.current_time.time() == self.data.refresh_time:
+            if _starts_after_refresh(self):
                 self.on_before_refresh_time()
             return step_method(self, *args, **kwargs)
         decorated_step.__doc__ = step_method.__doc__
@@ -915,9 +927,9 @@ class Callbacks():
             step_method: the step method to decorate.
         """
         def decorated_step(self: TimeAwareSimulator, *args, **kwargs) -> None:
-            previous_time = self.current_time.time()
+            refresh = _starts_after_refresh(self)
             out = step_method(self, *args, **kwargs)
-            if previous_time == self.data.refresh_time:
+            if refresh:
                 self.on_after_refresh_time()
             return out
         decorated_step.__doc__ = step_method.__doc__
-- 
2.43.0


From fdadcb5403add08ecf94f930b42379f1421246d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 09/76] fix: clear the cached values at the initialization of a
 simulator

---
 demod/simulators/base_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 18a5f66..423bd89 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -507,6 +507,8 @@ class Simulator():
         if start_time_step < 0:
             raise ValueError('start_time_step must be non-negative')
         self.current_time_step = 0
+        # the values cached before the initialization are outdated
+        self._cache.clear()
         for _ in range(start_time_step):
             self.step(*args, **kwargs)
 
-- 
2.43.0


From 50b2b3b803b961ea9df13460232de0cdd0c3bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 10/76] fix: the copy of a logger is empty, so its length is
 zero

---
 demod/simulators/base_simulators.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 423bd89..707c024 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -209,9 +209,7 @@ class SimLogger():
         Returns:
             An empty logger with the same attributes.
         """
-        new_logger = SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
-        new_logger.length = self.length
-        return new_logger
+        return SimLogger(self.attributes_list.copy(), aggregated=self.aggregated)
 
     def visit_simulator(self:SimLogger, sim:Simulator) -> None:
         """Visit a simulator object
-- 
2.43.0


From ec3e09adf3e24fba5099f23ed954afcde7573fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:31 +0000
Subject: [PATCH 11/76] fix: initialize the states of the Markov simulators
 before they are used

The parent initialization, which runs the starting steps and calls the
logger, was called before the states existed.
---
 demod/simulators/activity_simulators.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 4a8a00f..cab1555 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -169,7 +169,13 @@ class MarkovChain1rstOrder(Simulator):
             AssertionError:
                 If the parameters have wrong types or shapes
         """
+        self._initialize_states(starting_state_pdf, checkcdf=checkcdf)
+        # the starting steps need the states
         super().initialize_starting_state(start_time_step=start_time_step)
+
+    def _initialize_states(
+            self, starting_state_pdf: np.ndarray, checkcdf: bool = True
+    ) -> None:
         # generates from the distribution of states
         assert len(starting_state_pdf) == self.n_states, (
             'the starting states'
@@ -389,17 +395,17 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             AssertionError
                 If the parameters have wrong types or shapes
         """
-        super().initialize_starting_state(
-            starting_state_pdf,
-            start_time_step=start_time_step,
-            checkcdf=checkcdf,
-        )
+        self._initialize_states(starting_state_pdf, checkcdf=checkcdf)
         # Adds the time based
         self.times_left = monte_carlo_from_pdf(
             # Get the pdf of times left corresponding to each current states
             starting_durations_pdfs[self.current_states, :]
         ) - 1  # Duration are uploaded after step, and changed when == 0
         self._set_duration_pdfs(self.duration_pdfs)
+        # the starting steps need the states and their durations
+        Simulator.initialize_starting_state(
+            self, start_time_step=start_time_step
+        )
 
     def _set_duration_pdfs(
         self, duration_pdfs: np.ndarray, checkcdf: bool = True,
-- 
2.43.0


From f2a79a3b39a16de3a3c9474351a3aaeee9dc7420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:31 +0000
Subject: [PATCH 12/76] fix: log the semi Markov states after the step that
 changes them

---
 demod/simulators/activity_simulators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index cab1555..5fb9147 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -449,9 +449,6 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
         Then it updates the new states of these subjects, and from that
         it samples the duration of that new state.
         """
-        # Bypass the first order change of states
-        Simulator.step(self)
-
         mask_change_state = self.times_left < 1
         previous_change_states = self.current_states[mask_change_state]
         # draw a montecarlo estimate on the current time
@@ -479,6 +476,8 @@ class SemiMarkovSimulator(MarkovChain1rstOrder):
             )
         # update the time
         self.times_left -= 1
+        # Bypass the first order change of states
+        Simulator.step(self)
 
 
 class SubgroupsIndividualsActivitySimulator(
-- 
2.43.0


From 37d0975f081784306709a433b2af883abc33e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:22 +0000
Subject: [PATCH 13/76] fix: change the transition matrices of the day before
 its first step

They were changed after the first step of the day, which used the matrices
of the day before, and the matrices of the new day were then applied one
step too late during the whole day.
---
 demod/simulators/activity_simulators.py |  4 ++--
 demod/simulators/crest_simulators.py    | 12 +++---------
 2 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/demod/simulators/activity_simulators.py b/demod/simulators/activity_simulators.py
index 5fb9147..3b2a528 100644
--- a/demod/simulators/activity_simulators.py
+++ b/demod/simulators/activity_simulators.py
@@ -861,13 +861,13 @@ class SubgroupsIndividualsActivitySimulator(
     def get_performing_activity(self, activity_name: str) -> np.ndarray:
         return self.get_n_doing_activity(activity_name)
 
-    @ Callbacks.after_refresh_time
+    @ Callbacks.before_refresh_time
     def step(self) -> None:
         """Update the simulator."""
         # Simply calls the parents (Multi for the sims and TimeAware for time)
         return super().step()
 
-    def on_after_refresh_time(self) -> None:
+    def on_before_refresh_time(self) -> None:
         """Update the tpms."""
         # Check if we want to update the tpms
         if self.time_aware:
diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index 0fa39bc..d947577 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -307,14 +307,8 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             initialization_time=self.data.refresh_time,
         )
 
-    def on_after_refresh_time(self) -> None:
-        """Update the TPMs for the new daytype.
-
-        Note:
-            It was deduced that the change of TPM must be perform after
-            midnight, as deduction seem to make think that the first
-            TPM is for the transition 00:00 -> 00:10.
-        """
+    def on_before_refresh_time(self) -> None:
+        """Update the TPMs for the new daytype."""
         day_type = "d" if self.current_time.isoweekday() <= 5 else "e"
         if day_type != self.current_day_type:
             self.current_day_type = day_type
@@ -335,7 +329,7 @@ class Crest4StatesModel(TimeAwareSimulator, MultiSimulator):
             [sim.state_labels[sim.current_states] for sim in self.simulators]
         )
 
-    @Callbacks.after_refresh_time
+    @Callbacks.before_refresh_time
     def step(self) -> None:
         """Updates the states of the residents."""
         return super().step()
-- 
2.43.0


From e8159856add6d846e4861ff480ddd4efdd2032ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:22 +0000
Subject: [PATCH 14/76] fix: apply the CREST transition matrices to the times
 they are made for

The first matrix of CREST is for the transition from the first to the second
time step (propagating the starting pdf through all of them gives it back),
and not for the transition into the first one, as for the other datasets.
---
 demod/simulators/crest_simulators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/demod/simulators/crest_simulators.py b/demod/simulators/crest_simulators.py
index d947577..aab15e7 100644
--- a/demod/simulators/crest_simulators.py
+++ b/demod/simulators/crest_simulators.py
@@ -158,6 +158,11 @@ class CrestOccupancySimulator(MarkovChain1rstOrder, ActivitySimulator):
         )
         super().initialize_starting_state(startpdf, checkcdf=adjustcdfvalues)
 
+    def _set_tpm(self, tpms: np.ndarray, *args, **kwargs) -> None:
+        # The first matrix of CREST is for the transition 00:00 -> 00:10,
+        # while the parent needs matrices for the transitions into t.
+        super()._set_tpm(np.roll(tpms, 1, axis=0), *args, **kwargs)
+
     @cached_getter
     def get_occupancy(self) -> np.array:
         return self.state_labels[self.current_states] // 10
-- 
2.43.0


From f50dcfd4baf58d2c0a9a973d105e605fe82f65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:22 +0000
Subject: [PATCH 15/76] fix: draws above the end of a cdf returned the first
 value

A cdf is accepted as valid when it ends slightly below 1, and a random
number between its end and 1 selected the first value, even if its
probability is 0.
---
 demod/utils/monte_carlo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/demod/utils/monte_carlo.py b/demod/utils/monte_carlo.py
index afd3e6b..559421f 100644
--- a/demod/utils/monte_carlo.py
+++ b/demod/utils/monte_carlo.py
@@ -38,6 +38,8 @@ def monte_carlo_from_1d_cdf(cdf: CDF, n_samples: int = 1) -> MC_choices:
     """
     # sample MC distibution
     rand = np.random.uniform(size=n_samples)
+    # the last value of the cdf can be slightly less than 1
+    rand = np.minimum(rand, np.nextafter(cdf[-1], 0))
     # gets the approptiate cdfs values
     mask = cdf > rand[:, None]
     return np.argmax(mask, axis=1)
@@ -75,6 +77,8 @@ def monte_carlo_from_cdf(cdf_s: CDFs) -> MC_choices:
     """
     # sample MC distibution
     rand = np.random.uniform(size=cdf_s.shape[0])
+    # the last values of the cdfs can be slightly less than 1
+    rand = np.minimum(rand, np.nextafter(cdf_s[:, -1], 0))
     # gets the approptiate CDFs values
     mask = cdf_s > rand[:, None]
     return np.argmax(mask, axis=1)
-- 
2.43.0


From ea6ca2586dbdb457084fa734f8f7ee7af101488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 16/76] fix: the time of the sparse simulators at the start of
 the simulation

The steps since 4 am, which are simulated at the initialization, were added
to the start time, so that the simulator was ahead of the requested time and
used the wrong day of the week.
---
 demod/simulators/sparse_simulators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 7f1f9c6..46cbedf 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -151,6 +151,8 @@ class SparseStatesSimulator(Simulator):
             start_datetimestep = self._getstart_time_step_from_datetime(
                 start_datetime
             )
+            # the first steps simulate the time since 4 am
+            self.time -= start_datetimestep * datetime.timedelta(minutes=10)
         else:
             start_datetimestep = 0
 
-- 
2.43.0


From 0dea64a26efc26f98360c48c18c40e2ec52d61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 17/76] fix: update the sparse states before they are logged
 and cached

The logger was called between the clearing of the cache and the update of
the states, so it logged the states of the previous step, which the getters
then kept returning.
---
 demod/simulators/sparse_simulators.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 46cbedf..f703dc6 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -297,15 +297,14 @@ class SparseStatesSimulator(Simulator):
             ):  # if it has been reinitialized
                 self.update_new_day()
 
-        # update the time step
-        super().step()
-
         # draw a montecarlo estimate on the current time
 
         self.current_states = self.tpm.sparse_monte_carlo(
-            self.current_time_step - 1,  # -1 because it was already updated
+            self.current_time_step,
             self.current_states,
         )
+        # update the time step
+        super().step()
 
 
 class SparseActivitySimulator(SparseStatesSimulator):
-- 
2.43.0


From 2f61bbfee392acf02265a8c786ff05016fa29304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 18/76] fix: states lost between two sparse matrices get the
 first state

They were given its label instead of its position.
---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index f703dc6..2461dc8 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -576,7 +576,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
         #     'out of : ', len(old_labels_position_in_new) )
         # TODO: change the assignement of too dangerous
         mask_lost_transition = old_labels_position_in_new == -1
-        old_labels_position_in_new[mask_lost_transition] = labels[0]
+        old_labels_position_in_new[mask_lost_transition] = 0
 
         # convert states to the new ones
         self.current_states = old_labels_position_in_new[inverse].reshape(-1)
-- 
2.43.0


From fc8a1524b10db76ea54d48a75a612d2eedc8a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 19/76] fix: the quarters of the sparse simulators are numbered
 from 1

As in the datasets and in add_time. Quarter 0 is the whole year, and the
others were one quarter late.
---
 demod/simulators/sparse_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/sparse_simulators.py b/demod/simulators/sparse_simulators.py
index 2461dc8..ce1d5a5 100644
--- a/demod/simulators/sparse_simulators.py
+++ b/demod/simulators/sparse_simulators.py
@@ -542,7 +542,7 @@ class SparseTransitStatesSimulator(SparseStatesSimulator):
 
         # update the quarter if required
         if self.use_quarters:
-            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3
+            self.subgroup_kwargs["quarter"] = (self.time.month - 1) // 3 + 1
         else:
             self.subgroup_kwargs["quarter"] = None
 
-- 
2.43.0


From 3e0a18a4307095cce98497ab8f5fc69117971bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 20/76] fix: check the lengths of the arrays of the sparse
 matrices

'&' has precedence over '==', so that wrong lengths were accepted.
---
 demod/utils/sparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index edc6d42..edd522d 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -74,8 +74,8 @@ class SparseTPM():
         length = len(times)
         if not (
                 length == len(inds_from)
-                & length == len(inds_to)
-                & length == len(values)):
+                == len(inds_to)
+                == len(values)):
             raise ValueError('Inputs must match in length')
         self.times = np.array(times, dtype=np.uint16)
         self.inds_from = np.array(inds_from, dtype=np.uint16)
-- 
2.43.0


From c48986907a3ea6ac11e0530a8e0471dc024435da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:17 +0000
Subject: [PATCH 21/76] fix: sparse draws at the limits of a row used another
 state's row

With roundoff errors, or a random number of exactly 0, the position in the
flattened cdf was in the row of the neighbour state or after the end. The
states given for dead states were also changed in place.
---
 demod/utils/sparse.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index edd522d..0d0d5c0 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -190,6 +190,7 @@ class SparseTPM():
             warnings.warn('Are some dead states at step {}'.format(time))
             if self.dead_state_value is not None:
                 # change the dead states and resample a montecarlo draw
+                states = np.array(states)
                 states[
                     ~np.isin(states, self.inds_from[mask])
                 ] = self.dead_state_value
@@ -204,7 +205,15 @@ class SparseTPM():
         rand = np.random.uniform(size=states.shape) + inv
         # print('r', rand)
         # look for the position in the array
-        new_states = self.inds_to[mask][np.searchsorted(flattened_cdf, rand)]
+        positions = np.searchsorted(flattened_cdf, rand)
+        # stay in the transitions of the state in case of roundoff errors
+        inds_from = self.inds_from[mask]
+        positions = np.clip(
+            positions,
+            np.searchsorted(inds_from, states, side='left'),
+            np.searchsorted(inds_from, states, side='right') - 1
+        )
+        new_states = self.inds_to[mask][positions]
         # print('new states', new_states)
         return np.array(new_states)
 
-- 
2.43.0


From 668e57e04d7c537be27aa06eef3784b466bffd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 22/76] fix: the clearness and the irradiance are single values

They became arrays of one element after the first step, with which the CREST
climate fails on current versions of numpy.
---
 demod/simulators/weather_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 3211be0..1d58712 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -153,7 +153,7 @@ class CrestIrradianceSimulator(ClimateSimulator):
         # update the state through a Markov Chain Monte Carlo algorithm
         self._clearness_state = monte_carlo_from_1d_cdf(
             self.clearness_cdf[self._clearness_state]
-        )
+        )[0]
         return self.clearness_values[
             self._clearness_state
         ]  # return the value of the clearness
-- 
2.43.0


From 67a09ab27631fd9573e437c89a6d28f84476d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 23/76] fix: the irradiance was reset after the steps from
 midnight to the start

A simulation started at noon had no sun, and a logger of the irradiance
could not be used, as it is called before the irradiance existed.
---
 demod/simulators/weather_simulators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 1d58712..c3c39e9 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -143,11 +143,12 @@ class CrestIrradianceSimulator(ClimateSimulator):
 
         self.on_after_next_day()
 
+        # Assuume midnight sun is down
+        self.irradiance = 0
+
         super().initialize_starting_state(
             initialization_time=datetime.time(0, 0, 0)
         )
-        # Assuume midnight sun is down
-        self.irradiance = 0
 
     def _next_clearness(self):
         # update the state through a Markov Chain Monte Carlo algorithm
-- 
2.43.0


From 6824927249aff39a7d1af43d13d0e1601577edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 24/76] fix: the irradiance of the CREST climate was shifted by
 the start time

The daily irradiance was simulated from the start time but used from
midnight.
---
 demod/simulators/weather_simulators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index c3c39e9..9706bb4 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -328,9 +328,12 @@ class CrestClimateSimulator(ClimateSimulator):
         super().__init__(start_datetime=start_datetime, **kwargs)
         # remove some kwargs for irradiance
         kwargs.pop("logger", None)
+        # The days of irradiance are simulated from midnight
         self.irradiance_sim = CrestIrradianceSimulator(
             data,
-            start_datetime=start_datetime,
+            start_datetime=start_datetime.replace(
+                hour=0, minute=0, second=0, microsecond=0
+            ),
             initial_clearness=initial_clearness,
             **kwargs)
 
-- 
2.43.0


From 3fbfcb959fc505e5a658f6ade3d55b6475d621f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:24 +0000
Subject: [PATCH 25/76] fix: the first time of the climate data is in UTC

It was taken for a local time, so that the simulation started with the data
of another hour, or refused to start.
---
 demod/simulators/weather_simulators.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 9706bb4..2fffa08 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -638,9 +638,11 @@ class RealClimate(ClimateSimulator):
         intialization_time = climate_data['datetime'][0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # The times of the dataset are in UTC
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
             raise ValueError(
@@ -764,9 +766,11 @@ class RealInterpolatedClimate(ClimateSimulator):
         intialization_time = self.datetime_values_utc[0].astype(
             datetime.datetime
         )
-        intialization_time = intialization_time.replace(
-            tzinfo=start_datetime.tzinfo
-        )
+        if start_datetime.tzinfo is not None:
+            # The times of the dataset are in UTC
+            intialization_time = intialization_time.replace(
+                tzinfo=datetime.timezone.utc
+            ).astimezone(start_datetime.tzinfo)
 
         # Checks that the data does not start after the start datetime
         if intialization_time > start_datetime:
-- 
2.43.0


From 92379717a578f0ec17fcb116fa182c9293a402f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:49 +0000
Subject: [PATCH 26/76] fix: log the lighting after the step that changes it

---
 demod/simulators/lighting_simulators.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index d58a8ed..04343cf 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -407,8 +407,6 @@ class CrestLightingSimulator(Simulator):
             active_occupancy: number of active occupants in each households.
             irradiance: irradiation from the sun.
         """
-        super().step()
-
         # update the times left
         self.bulbs_times_left[self.bulbs_times_left > 0] -= 1
 
@@ -448,4 +446,4 @@ class CrestLightingSimulator(Simulator):
         # If there are no active occupants, turn off the light
         self.bulbs_times_left[active_occupancy == 0, :] = 0
 
-
+        super().step()
-- 
2.43.0


From 865a76657e44058d2d8cda1bd65e26cad2399af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:49 +0000
Subject: [PATCH 27/76] fix: the default initial occupancy of the lighting has
 one value per household

---
 demod/simulators/lighting_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/lighting_simulators.py b/demod/simulators/lighting_simulators.py
index 04343cf..e3dcc5c 100644
--- a/demod/simulators/lighting_simulators.py
+++ b/demod/simulators/lighting_simulators.py
@@ -93,7 +93,7 @@ class FisherLightingSimulator(Simulator):
             initial_irradiance: value of initial irradiance
         """
         self.active_occupancy = (
-            np.ones_like(self.n_households)
+            np.ones(self.n_households)
             if initial_active_occupancy is None else initial_active_occupancy
         )
         self.irradiance = initial_irradiance or 0
-- 
2.43.0


From 176a0e551a3fed6a1f74bdb2f92b82bdba7d2f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:49 +0000
Subject: [PATCH 28/76] fix: log the charging of the cars after the step that
 changes it

---
 demod/simulators/car_simulator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index 0ca5c8d..b152864 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -116,7 +116,6 @@ class ElectricCarSimulator(Simulator):
         return kWh_consumed
 
     def step(self, occupancy, n_HOH, n_HWH, increment=datetime.timedelta(minutes=10)):
-        super().step()
         # compare the values with the old stored
 
 
@@ -143,7 +142,7 @@ class ElectricCarSimulator(Simulator):
         mask_arriving_cars = np.zeros_like(mask_candidate_cars)
         mask_arriving_cars[np.where(mask_candidate_cars)[0][ind]] = True
 
-        if self.current_time_step%144 == self.STEP_IGNORE_TRANSITIONS:
+        if (self.current_time_step + 1)%144 == self.STEP_IGNORE_TRANSITIONS:
             mask_arriving_cars[:] = False # avoid car arrival at change of day to avoid discontinuities form occ sim
 
         self.in_use[mask_arriving_cars] = False
@@ -183,7 +182,7 @@ class ElectricCarSimulator(Simulator):
         # print(np.where(available_cars_mask)[0][ind])
         mask_leaving_cars = np.zeros_like(mask_candidate_cars)
         mask_leaving_cars[np.where(available_cars_mask)[0][ind]]= True
-        if self.current_time_step%144 == self.STEP_IGNORE_TRANSITIONS:
+        if (self.current_time_step + 1)%144 == self.STEP_IGNORE_TRANSITIONS:
             mask_leaving_cars[:] = False # avoid car arrival at change of day to avoid discontinuities form occ sim
         # updates cars that leave
         self.in_use[mask_leaving_cars] = True
@@ -197,13 +196,14 @@ class ElectricCarSimulator(Simulator):
 
         self.update_charging()
 
+        super().step()
 
     def start_charging(self, mask_car_start_charging):
 
         # where after use charging stat chargin
         self.is_charging[mask_car_start_charging & (self.charging_strategy[self.car_hh]==0)] = True
         # 6 am timers
-        t = self.current_time_step%144
+        t = (self.current_time_step + 1)%144
         #assume we start simulation at 4 am
         # for timeres after 4 am
         n_times_till_charged = np.where( self.car_timer - t > 0, self.car_timer - t, self.car_timer + (144-t))
-- 
2.43.0


From a90974e87827efba8dfc27a004f7c7733a9443df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:49 +0000
Subject: [PATCH 29/76] fix: sample only the groups of the population that have
 a probability

---
 demod/simulators/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/util.py b/demod/simulators/util.py
index 2293c74..c475a57 100644
--- a/demod/simulators/util.py
+++ b/demod/simulators/util.py
@@ -108,7 +108,7 @@ def sample_population(
     cdf = np.cumsum(pdf)
     check_valid_cdf(cdf)
     if population_sampling_algo == 'real_population':
-        lin_space = np.linspace(0, 1, n_samples)
+        lin_space = np.linspace(np.nextafter(0, 1), cdf[-1], n_samples)
         inds = np.searchsorted(cdf, lin_space)
     elif population_sampling_algo == 'monte_carlo':
         inds = monte_carlo_from_1d_cdf(cdf, n_samples=n_samples)
-- 
2.43.0


From 4dbfba6b20934eccda0899679e4f90b444abeb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 30/76] fix: appliances that follow another one could not be
 simulated

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d49d9d8..38be5af 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1925,7 +1925,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # Must switchon the appliances that follow a specific switchoff
         new_app_id = np.where(  # ID where the appliance follows a previous one
             self.appliances['previous_appliance_type'] != 'nan'
-        )
+        )[0]
         indexes_app_start = np.array([], dtype=int)
         indexes_hh_start = np.array([], dtype=int)
         # Iterates over the appliances with a previous type
-- 
2.43.0


From 8c4daf42a5cdc3b0189e11e4f8b19760cadf4577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 31/76] fix: don't invert the probabilistic appliances of the
 loaded dictionary

---
 demod/simulators/appliance_simulators.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 38be5af..951ae20 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1597,13 +1597,19 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                 "'probabilistic' is not in appliance dict of {}. \n "
                 "{} will assume they are all probabilistic."
             ).format(self.data, self))
-            appliance_dict['probabilistic'] = np.ones_like(
-                appliance_dict['type'], dtype=bool
-            )
+            appliance_dict = {
+                **appliance_dict,
+                'probabilistic': np.ones_like(
+                    appliance_dict['type'], dtype=bool
+                )
+            }
 
         # Is the opposite as activity related, so we can just change the
         # value of the probabilistic array
-        appliance_dict['probabilistic'] = (~appliance_dict['probabilistic'])
+        appliance_dict = {
+            **appliance_dict,
+            'probabilistic': ~appliance_dict['probabilistic']
+        }
         new_dic = ActivityApplianceSimulator._remove_non_compatible_appliances(
             self, appliance_dict, initial_activities_dict
         )
-- 
2.43.0


From 9c6eca614a0ef3dfda083ba7a6060fb95de80b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 32/76] fix: switch on appliances from their current usage, not
 the cached one

---
 demod/simulators/appliance_simulators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 951ae20..e7007e3 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1859,6 +1859,10 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # this simulator
         pass
 
+    def _get_mask_used(self):
+        # During a step, the cached usage is outdated
+        return (self.n_steps_left > 0) & self.available_appliances
+
     def _compute_switch_on_probs(self, indexes_household, indexes_appliance):
         """Compute switch on probs for appliances that can be started.
 
@@ -1871,7 +1875,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         """
         return (
             (
-                ~self.get_current_usage()[indexes_household, indexes_appliance]
+                ~self._get_mask_used()[indexes_household, indexes_appliance]
                 & ~np.isin(indexes_appliance, self.apps_dictated_start)
             )
             * self.switch_on_probs[indexes_household, indexes_appliance]
@@ -1886,7 +1890,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         or when activity stops.
         """
         return (
-            (~self.get_current_usage()[indexes_household, indexes_appliance])
+            (~self._get_mask_used()[indexes_household, indexes_appliance])
             * self.switch_on_probs[indexes_household, indexes_appliance]
         )
 
-- 
2.43.0


From 6528b367669f2eca484438d602aab822c21089ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 33/76] fix: the appliances modified the subgroups of the
 caller

---
 demod/simulators/appliance_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index e7007e3..b52849e 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -299,7 +299,8 @@ class AppliancesSimulator(TimeAwareSimulator):
                 "the sum of 'n_households_list' "
             )
 
-        self.subgroups_list = subgroups_list
+        # Copies the subgroups as they are updated with the time
+        self.subgroups_list = [dict(subgroup) for subgroup in subgroups_list]
 
         n_households_list = np.array(n_households_list, dtype=int)
         # keep in memory from which subgroup the hh are
-- 
2.43.0


From fb4ea3e3dda74be9f2bff54f389a6fb88a902be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 34/76] fix: switch on the initial appliances before the first
 values are read

---
 demod/simulators/appliance_simulators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index b52849e..b17bea8 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -152,7 +152,6 @@ class AppliancesSimulator(TimeAwareSimulator):
         self.n_steps_left = np.zeros_like(
             self.available_appliances, dtype=float
         )
-        self._initialize_real_loads()
         # stores the number of time till the appliances can be used
         # again after refresh period
         # This is specially useful for the fridges and freezers cycles,
@@ -164,6 +163,7 @@ class AppliancesSimulator(TimeAwareSimulator):
             for delay in self.appliances["after_cycle_delay"]
         ]
         self.n_steps_till_refresh = np.asarray(delays, dtype=int).T
+        self._initialize_real_loads()
         initialization_time = kwargs.pop("initialization_time", None)
         return super().initialize_starting_state(
             *args, initialization_time=initialization_time, **kwargs
@@ -1384,11 +1384,15 @@ class ActivityApplianceSimulator(AppliancesSimulator):
         self._is_used = np.zeros_like(
             self.available_appliances, dtype=bool
         )
-        super().initialize_starting_state(self, **kwargs)
         self.previous_act_dict = initial_activities_dict.copy()
+        super().initialize_starting_state(**kwargs)
+
+    def _initialize_real_loads(self):
+        """Switch on the appliances of the initial activities."""
+        super()._initialize_real_loads()
 
         # Records the position in the pattern of this appliance
-        for act, n_performing in initial_activities_dict.items():
+        for act, n_performing in self.previous_act_dict.items():
             # Gets indices of the appliances of act and the performing act
             app_ind = np.where(self.appliances['related_activity'] == act)[0]
             hh_ind = np.where(n_performing > 0)[0]
@@ -1766,7 +1770,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # Remember the previous activities
         self.previous_act_dict = initial_activities_dict.copy()
 
-        super().initialize_starting_state(self, **kwargs)
+        super().initialize_starting_state(**kwargs)
 
     def step(self, activities_dict: Dict[str, np.ndarray]) -> None:
         """Step function for the appliances.
-- 
2.43.0


From 30d03d97212e27cb7a1f835929398a8e0d58d271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:41 +0000
Subject: [PATCH 35/76] fix: the use of the appliances was one step too short

---
 demod/simulators/appliance_simulators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index b17bea8..061aafb 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1095,7 +1095,7 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
         )
         self.n_steps_left[
             indexes_household, indexes_appliance
-        ] = cycle_duration
+        ] = cycle_duration + 1  # The current step is decremented too
         # adds the time till refresh
         self.n_steps_till_refresh[indexes_household, indexes_appliance] = (
             cycle_duration
@@ -1124,8 +1124,8 @@ class OccupancyApplianceSimulator(AppliancesSimulator):
             volumes
             / self.appliances["mean_water_consumption"][indexes_appliance]
         )
-        # water fixtures duration
-        self.n_steps_left[indexes_household, indexes_appliance] = durations
+        # water fixtures duration, the current step is decremented too
+        self.n_steps_left[indexes_household, indexes_appliance] = durations + 1
         # adds the time till refresh is possible
         self.n_steps_till_refresh[indexes_household, indexes_appliance] = (
             durations + self.appliances["after_cycle_delay"][indexes_appliance]
@@ -1485,6 +1485,8 @@ class ActivityApplianceSimulator(AppliancesSimulator):
 
     def _switch_on_variable_loads(self, indexes_household, indexes_appliance):
         super()._switch_on_variable_loads(indexes_household, indexes_appliance)
+        # The current step is decremented too
+        self.n_steps_left[indexes_household, indexes_appliance] += 1
         self._is_used[indexes_household, indexes_appliance] = True
 
     def switch_off(self, indexes_household, indexes_appliance):
-- 
2.43.0


From 53c03cf2bc2440c14b3d76e376aa7b394c753792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 36/76] fix: the heat demand is computed for the step size of
 the simulator

---
 demod/simulators/heating_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 7a5e4bc..28db556 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1682,6 +1682,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             n_households,
             self.heatingsystem,
             self.building_sim,
+            step_size=step_size,
             heatdemand_algo=heatdemand_algo,
             deadbands=self.thermostats_sim.thermostat['deadband']
         )
-- 
2.43.0


From 1e828680305a161c6fca9dde7ce6ab2d271ddd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 37/76] fix: external target temperatures that are nan keep the
 current target

---
 demod/simulators/heating_simulators.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 28db556..49a67b2 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -797,16 +797,23 @@ class Thermostats(Simulator):
             target_temperatures: If array is used, it will be the target
                 for space heating.
         """
-        if isinstance(target_temperatures, dict):
-            for key, item in target_temperatures.items():
-                self.target_temperatures[key] = item
-        elif isinstance(target_temperatures, np.ndarray):
+        if isinstance(target_temperatures, np.ndarray):
             # assume the room temperature was given as target_temperature
-            self.target_temperatures["space_heating"] = np.array(
-                target_temperatures
-            )
-        else:
+            target_temperatures = {"space_heating": target_temperatures}
+        elif not isinstance(target_temperatures, dict):
             raise TypeError("target_temperature must be dict or ndarray")
+        # nan values don't override the current targets
+        self.target_temperatures = {
+            **self.target_temperatures,
+            **{
+                key: np.where(
+                    np.isnan(item),
+                    self.target_temperatures.get(key, item),
+                    item,
+                )
+                for key, item in target_temperatures.items()
+            },
+        }
 
     def step(
         self,
-- 
2.43.0


From 6cda435c4963772ecf905c561a30ef438a781e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 38/76] fix: no external heat for the households where it is
 nan

---
 demod/simulators/heating_simulators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 49a67b2..9dcd256 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1777,6 +1777,12 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         )
         heat_outputs_dict["dhw"] += remaining_heat_output
 
+        # nan values must not be assigned to any of the outputs
+        for key, item in heat_outputs_dict.items():
+            heat_outputs_dict[key] = np.where(
+                np.isnan(heat_output), np.nan, item
+            )
+
         return heat_outputs_dict
 
     def _set_external_heating_systems(self, external_heat_outputs_dict):
-- 
2.43.0


From de11310d9021351b57fa057e26aceca84329f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 39/76] fix: the external heat outputs of the caller were
 modified

---
 demod/simulators/heating_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 9dcd256..9a6a41a 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1828,7 +1828,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             heat_output_dictionary
         """
         if isinstance(external_heat_outputs, dict):
-            out_dict = external_heat_outputs
+            out_dict = external_heat_outputs.copy()
         else:
             out_dict = {}
         # convert the external heat_outputs as ndarray to the dict heat output format
-- 
2.43.0


From 59d7c6623896c96ca180be526a6df423eeadaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 40/76] fix: the total heat output includes the external heat
 outputs

---
 demod/simulators/heating_simulators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 9a6a41a..0a78b86 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1955,6 +1955,10 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             self.heatingsystem.get_heat_outputs(), external_heat_outputs_dict
         )
 
+        heat_outputs["total"] = (
+            heat_outputs["space_heating"] + heat_outputs["dhw"]
+        )
+
         self.building_sim.step(
             outside_temperature=outside_temperature,
             irradiance=irradiance,
-- 
2.43.0


From b930ba36dbb34b30a76d46aa44a08a260685f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 41/76] fix: the external cylinders are used at the step they
 are given

---
 demod/simulators/heating_simulators.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 0a78b86..5818daa 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1926,6 +1926,13 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         # also assigns external cylinder in sim
         self.building_sim.temperatures["cylinder"] = temperatures["cylinder"]
 
+        # records which households have an external cylinder
+        if external_cylinder_temperature is None:
+            self.use_external_cylinder = np.full(self.n_households, False)
+        else:
+            self.use_external_cylinder = ~np.isnan(
+                external_cylinder_temperature
+            )
 
         # update the simulators
         self.thermostats_sim.step(
@@ -1945,6 +1952,10 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             dhw_heating_demand=dhw_heating_demand,
             outside_temperature=outside_temperature,
         )
+        # dhw demand is changed depending on the external cylinder
+        self.cyl_dhw_demand = self._compute_dhw_external_cyl(
+            temperatures, dhw_heating_demand, target_temperature["dhw"]
+        )
         self.heatingsystem.step(
             heating_controls=self.controls_sim.get_controls(),
             target_heat_demand=self.heatdemand_sim.get_heat_demand(),
@@ -1969,15 +1980,6 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             heat_outputs=heat_outputs,
         )
 
-        # dhw demand is changed depending on the external cylinder
-        if external_cylinder_temperature is not None:
-            self.use_external_cylinder = ~np.isnan(
-                external_cylinder_temperature
-            )
-            self.cyl_dhw_demand = self._compute_dhw_external_cyl(
-                temperatures, dhw_heating_demand, target_temperature["dhw"]
-            )
-
         super().step()
 
     def _compute_dhw_external_cyl(
-- 
2.43.0


From 8f51b9b8863913d00160c55cbfc727d425aba5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 42/76] fix: the fuel consumption of systems that heat only
 space or water was nan

---
 demod/simulators/heating_simulators.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 5818daa..09ab2b2 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1435,13 +1435,21 @@ class HeatingSystem(Simulator):
     @cached_getter
     def get_fuel_consumptions(self) -> Dict[str, np.ndarray]:
         out_dict = {}
-        # check where the heating is occuring & ensure no future division by 0
+        # check where the heating is occuring
         heating_occurs = self.controls["heater_on"] & (
             (self.max_Phi_h_space > 0) | (self.max_Phi_h_dhw > 0)
         )
         heat_outputs = self.get_heat_outputs()
         phi_space = heat_outputs["space_heating"]
         phi_dhw = heat_outputs["dhw"]
+        # Some systems heat only the space or only the water
+        used_capacity = sum(
+            np.divide(phi, max_phi, out=np.zeros_like(phi), where=max_phi > 0)
+            for phi, max_phi in (
+                (phi_space, self.max_Phi_h_space),
+                (phi_dhw, self.max_Phi_h_dhw),
+            )
+        )
 
         for h_type in np.unique(self.fuel_types):
             if h_type == "Mainsgas":
@@ -1450,10 +1458,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 3600.  # m^3/ h -> m^3/ sec
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * used_capacity,
                     0,
                 )
             elif h_type == "Electricity":
@@ -1462,10 +1467,7 @@ class HeatingSystem(Simulator):
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
                     * 1000.  # kW -> W
-                    * (
-                        phi_space / self.max_Phi_h_space
-                        + phi_dhw / self.max_Phi_h_dhw
-                    ),
+                    * used_capacity,
                     0,
                 )
             else:
-- 
2.43.0


From 4ab22017555eba215d68cca836d274804059ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:59 +0000
Subject: [PATCH 43/76] fix: the heating values given by the getters were
 modified by the next steps

---
 demod/simulators/heating_simulators.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 09ab2b2..c9fa375 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -635,10 +635,14 @@ class BuildingThermalDynamics(Simulator):
         )
 
         # Update building thermal node temperatures for this time step
-        self.temperatures["building"] += d_T_b
-        self.temperatures["interior"] += d_T_i
-        self.temperatures["emitter"] += d_T_em
-        self.temperatures["cylinder"] += d_T_cyl
+        # in new arrays, as the current ones were given by the getters
+        self.temperatures = {
+            **self.temperatures,
+            "building": self.temperatures["building"] + d_T_b,
+            "interior": self.temperatures["interior"] + d_T_i,
+            "emitter": self.temperatures["emitter"] + d_T_em,
+            "cylinder": self.temperatures["cylinder"] + d_T_cyl,
+        }
 
         return super().step()
 
@@ -842,6 +846,7 @@ class Thermostats(Simulator):
         # is off and temperature is below T - deadband (require switchon heating)
 
         # Hot water thermostat
+        self.thermostat_states = self.thermostat_states.copy()
         self.thermostat_states["hot_water"] = np.where(
             np.logical_or(
                 self.thermostat_states["hot_water"]
@@ -1113,6 +1118,7 @@ class HeatDemand(Simulator):
                 is 'room_estimation'. Defaults to None.
         """
 
+        self.target_heat_demand = self.target_heat_demand.copy()
         self.target_heat_demand[
             "dhw"
         ] = self._compute_target_heat_output_hot_water(
@@ -1251,6 +1257,7 @@ class SystemControls(Simulator):
         heater_onoff = heat_water_onoff | space_heating_onoff
 
         # assigns the new controls
+        self.heating_controls = self.heating_controls.copy()
         self.heating_controls["heater_on"] = heater_onoff
         self.heating_controls["heat_water_on"] = heat_water_onoff
         self.heating_controls["space_heating_on"] = space_heating_onoff
@@ -1523,6 +1530,9 @@ class HeatingSystem(Simulator):
             heating_controls: Dictronnary containing the control arrays.
             target_heat_demand: Dictionnary containing the heat demand arrays.
         """
+        # The current heat outputs were given by the getters
+        self.heat_outputs = self.heat_outputs.copy()
+
         #  Get the control signals from the heating controller
 
         # First case, if heat water is on
@@ -1910,7 +1920,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         """
 
         # first get the inputs variables from the internal or external simulators
-        temperatures = self.building_sim.get_temperatures()
+        temperatures = self.building_sim.get_temperatures().copy()
 
         external_heat_outputs_dict = self._assign_external_heat_outputs(
             external_heat_outputs, external_dhw_outputs, external_sh_outputs
@@ -1926,7 +1936,7 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
             temperatures["cylinder"], external_cylinder_temperature
         )
         # also assigns external cylinder in sim
-        self.building_sim.temperatures["cylinder"] = temperatures["cylinder"]
+        self.building_sim.temperatures = temperatures
 
         # records which households have an external cylinder
         if external_cylinder_temperature is None:
-- 
2.43.0


From a867e95831bdf073deb3ab901a9e245dcf106e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:16 +0000
Subject: [PATCH 44/76] fix: the variable thermostats could have neither a
 logger nor a pattern method

---
 demod/simulators/heating_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index c9fa375..b9f5eb5 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -185,6 +185,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
         initial_act_occ,
         start_datetime,
         *args,
+        pattern_attribution_method="living lab",
         **kwargs
     ):
         """Initialize a Simulator with variable temperature
@@ -198,7 +199,7 @@ class VariableThermostatTemperatureSimulator(Simulator):
                 temperature patterns
         """
         super().__init__(n_households, *args, **kwargs)
-        self.attribute_patterns(*args, **kwargs)
+        self.attribute_patterns(pattern_attribution_method)
         self.last_occupancy = initial_occupancy
         self.last_act_occ = initial_act_occ
         self.time = start_datetime
-- 
2.43.0


From 92b31116bc89d48bbfda4c32452412d6da59efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:59 +0000
Subject: [PATCH 45/76] fix: plots of a single attribute, of dictionaries or
 without the time failed

---
 demod/simulators/base_simulators.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/base_simulators.py b/demod/simulators/base_simulators.py
index 707c024..8b336fa 100644
--- a/demod/simulators/base_simulators.py
+++ b/demod/simulators/base_simulators.py
@@ -278,12 +278,15 @@ class SimLogger():
             n_plots -= 1
             x_ticks = self.get('current_time')
         else:
-            x_ticks = np.arange(0, self.length)
+            # the last point is not returned by get
+            x_ticks = np.arange(0, self.length - 1)
 
         fig, axes = plt.subplots(
             nrows=n_plots,
-            sharex=True
+            sharex=True,
+            squeeze=False
         )
+        axes = axes[:, 0]
         plt.subplots_adjust(hspace=0)
 
 
@@ -376,7 +379,15 @@ class SimLogger():
             if attr == 'current_time': continue
             serie = self.get(attr)
 
-            if not aggr and (len(serie.shape) > 1):
+            if isinstance(serie, dict):
+                if aggregate:
+                    # sum over the households
+                    serie = {
+                        key: np.sum(ser, axis=1) if len(ser.shape) > 1
+                        else ser for key, ser in serie.items()
+                    }
+                self._plot_single(serie, attr)
+            elif not aggr and (len(serie.shape) > 1):
                 if aggregate:
                     # sum over the households
                     self._plot_single(np.sum(serie, axis=1), attr)
-- 
2.43.0


From 4a416d06c0a6426c388c6a4d0148538ae1255cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:37 +0000
Subject: [PATCH 46/76] fix: the interpolated climate removed the time from the
 loaded data

---
 demod/simulators/weather_simulators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 2fffa08..045fa25 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -732,7 +732,8 @@ class RealInterpolatedClimate(ClimateSimulator):
 
         self.data = data
 
-        climate_dict = data.load_historical_climate_data(start_datetime)
+        # copy, as the datetime is removed from the dictionary
+        climate_dict = dict(data.load_historical_climate_data(start_datetime))
 
         super().__init__(start_datetime=start_datetime, **kwargs)
 
-- 
2.43.0


From c0615f4e8a66cfa40ae07e1c2799c66b91606028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:41 +0000
Subject: [PATCH 47/76] fix: the appliance simulators added keys to the loaded
 dictionary

---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 061aafb..c8aa925 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -124,7 +124,7 @@ class AppliancesSimulator(TimeAwareSimulator):
             :py:meth:`sample_real_load_profiles`
         """
         super().__init__(n_households, **kwargs)
-        self.appliances = appliances_dict
+        self.appliances = dict(appliances_dict)  # a copy, as keys are added
 
         # give appliances to the households
         self.available_appliances = self.sample_available_appliances(
-- 
2.43.0


From ed618aa56425d11e3ec50d2836b4ac622fad6886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:00 +0000
Subject: [PATCH 48/76] fix: appliances followed the use of an appliance that
 the household does not own

---
 demod/simulators/appliance_simulators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index c8aa925..d2132d4 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1799,6 +1799,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
 
         turned_off_hh, turned_off_app = np.where(
             mask_decrement_time & ~(self.n_steps_left > 0)
+            & self.available_appliances
         )
         # Start the appliances that start after another appliance
         if 'previous_appliance_type' in self.appliances:
-- 
2.43.0


From 38abeb688e436f04024f6f8b15e2326567991b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:00 +0000
Subject: [PATCH 49/76] fix: appliances that start after an activity never did
 unless another one is used during it

---
 demod/simulators/appliance_simulators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d2132d4..d144603 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1810,7 +1810,11 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         for act, n_performing in activities_dict.items():
             # Get the appliances related to that activity
             mask_apps_this_act = self.appliances['related_activity'] == act
-            if not np.any(mask_apps_this_act):
+            starts_after_act = (
+                'previous_activity' in self.appliances
+                and act in self.appliances['previous_activity']
+            )
+            if not np.any(mask_apps_this_act) and not starts_after_act:
                 # If no appliance is concerned by this activity
                 continue
 
-- 
2.43.0


From 613403b0b486a2e157cbbbd4390e527dab3e2de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:15 +0000
Subject: [PATCH 50/76] fix: the probability of appliances that start after an
 activity could be overwritten, and was required from all datasets

---
 demod/simulators/appliance_simulators.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index d144603..c056b28 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1653,6 +1653,15 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         # Sample the probability of a switch on event is occuring
         probs = np.zeros_like(self.available_appliances, dtype=float)
 
+        # Not all datasets have appliances with a dictated start
+        no_previous = np.full(self.appliances['number'], 'nan')
+        previous_activities = self.appliances.get(
+            'previous_activity', no_previous
+        )
+        previous_types = self.appliances.get(
+            'previous_appliance_type', no_previous
+        )
+
         # For each subgroup, finds the target of consumption
         for i, subgroup in enumerate(self.subgroups_list):
             n_residents = (
@@ -1694,7 +1703,11 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
             # Sample the probability for each activity
             for activity, act_prob in activity_prob.items():
                 # Each appliance will have a target
-                mask_this_act = self.appliances['related_activity'] == activity
+                mask_this_act = (
+                    (self.appliances['related_activity'] == activity)
+                    # these have special probs
+                    & (previous_activities == 'nan')
+                )
                 # Possible switchon steps in the target period (year)
                 n_possible_steps = (
                     365.25 * 24 * 60 * 60 / self.step_size.total_seconds()
@@ -1720,9 +1733,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                 # special probs for one time probs #
                 ####################################
                 # After activity stops
-                mask_start_after_act = (
-                    self.appliances['previous_activity'] == activity
-                )
+                mask_start_after_act = previous_activities == activity
                 # This appliance can start every ocurence of activity
                 n_possible_starts = 365.25 * np.dot(
                     # daily start is a pdf of starts, so we look for average
@@ -1738,8 +1749,6 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                 ).reshape(-1)
 
             # After appliance is used
-            previous_types = self.appliances['previous_appliance_type']
-
             # All the app types that append before
             for app_type_before in np.unique(previous_types[
                 np.isin(previous_types, self.appliances['type'])
-- 
2.43.0


From e49ff88718117a4c471ceb8949b0b8aab88fcd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:52 +0000
Subject: [PATCH 51/76] fix: an appliance simulator without compatible
 appliances could not be created

---
 demod/simulators/appliance_simulators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index c056b28..43a29b3 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -162,7 +162,9 @@ class AppliancesSimulator(TimeAwareSimulator):
             else np.zeros(self.n_households, dtype=int)
             for delay in self.appliances["after_cycle_delay"]
         ]
-        self.n_steps_till_refresh = np.asarray(delays, dtype=int).T
+        self.n_steps_till_refresh = np.asarray(delays, dtype=int).reshape(
+            self.appliances["number"], self.n_households
+        ).T
         self._initialize_real_loads()
         initialization_time = kwargs.pop("initialization_time", None)
         return super().initialize_starting_state(
-- 
2.43.0


From 89c726a6a2aec7356d786b85a8daba2d2ba6428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:41 +0000
Subject: [PATCH 52/76] fix: the climate was not interpolated between the
 minutes

With steps of seconds, the values changed only once per minute.
---
 demod/simulators/weather_simulators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/weather_simulators.py b/demod/simulators/weather_simulators.py
index 045fa25..63c0348 100644
--- a/demod/simulators/weather_simulators.py
+++ b/demod/simulators/weather_simulators.py
@@ -807,13 +807,13 @@ class RealInterpolatedClimate(ClimateSimulator):
                 datetime.datetime.utcfromtimestamp(
                     self.current_time.timestamp()
                 ) if self.current_time.tzinfo is not None
-                else self.current_time, dtype='datetime64[m]'
+                else self.current_time, dtype='datetime64[us]'
             )
-            # gets the relative position
+            # gets the relative position, also between the minutes
             minute = (
                 np_current_time_utc
                 - self.initial_time
-            ).astype(float)
+            ) / np.timedelta64(1, 'm')
             return self.interpolators[_key](minute)
 
         return interpolated_getter
-- 
2.43.0


From 635041bad1d06ede142f7222f77826c0c76d5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 53/76] fix: gas was counted 3600 times too much

The flow was multiplied by 3600 instead of divided for m^3/s, and the energy
of the gas exceeded its calorific value by that factor.
---
 demod/simulators/heating_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index b9f5eb5..1309d9f 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1465,7 +1465,7 @@ class HeatingSystem(Simulator):
                 out_dict[h_type] = np.where(
                     (self.fuel_types == h_type) & heating_occurs,
                     self.dblFuelFlowRate
-                    * 3600.  # m^3/ h -> m^3/ sec
+                    / 3600.  # m^3/ h -> m^3/ sec
                     * used_capacity,
                     0,
                 )
@@ -1497,7 +1497,7 @@ class HeatingSystem(Simulator):
         elec = fuel_cons["Electricity"] if "Electricity" in fuel_cons else 0
         gas = fuel_cons["Mainsgas"] if "Mainsgas" in fuel_cons else 0
         # convert gas flow to Watts
-        gas = gas / self.dblFuelFlowRate * self.flow_rate_to_W
+        gas = gas * 3600. / self.dblFuelFlowRate * self.flow_rate_to_W
         return self.get_pumps_power_consumptions() + elec + gas
 
     @cached_getter
-- 
2.43.0


From 63a1acf30f279a8a02d2cacb7299a1523e7205d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:57 +0000
Subject: [PATCH 54/76] fix: missing external outputs for dhw or space heating
 kept no other ones

Where they are nan, they removed the values of external_heat_outputs, although
nan values must not be assigned.
---
 demod/simulators/heating_simulators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 1309d9f..71f9f87 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -1856,14 +1856,20 @@ class FiveModulesHeatingSimulator(AbstractHeatingSimulator):
         if external_dhw_outputs is not None:
             # Creates the array to store the dhw
             out_dict["dhw"] = assign_external_array(
-                np.full(external_dhw_outputs.shape, np.nan),
+                out_dict.get(
+                    "dhw", np.full(external_dhw_outputs.shape, np.nan)
+                ),
                 external_dhw_outputs,
             )
 
         if external_sh_outputs is not None:
             # Creates the array to store the dhw
             out_dict["space_heating"] = assign_external_array(
-                np.full(external_sh_outputs.shape, np.nan), external_sh_outputs
+                out_dict.get(
+                    "space_heating",
+                    np.full(external_sh_outputs.shape, np.nan)
+                ),
+                external_sh_outputs
             )
 
         return out_dict
-- 
2.43.0


From 1bb22a56fc64ce2761fdf0ee1cda8c128a7e11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 55/76] fix: transitions of secondary states were assigned to
 other persons

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 9faa4e7..bc35ea5 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -159,8 +159,8 @@ def states_to_transitions_secondary(
         transition_times.append(
             np.full(np.sum(mask_transition_p) + np.sum(mask_transition_s), i)
         )
-        transition_person.append(np.where(mask_transition_s)[0])
         transition_person.append(np.where(mask_transition_p)[0])
+        transition_person.append(np.where(mask_transition_s)[0])
         transition_new_state.append(np.array(p[mask_transition_p]))
         transition_new_state.append(np.array(s[mask_transition_s]))
         transition_old_state.append(np.array(old_p_states[mask_transition_p]))
-- 
2.43.0


From 73ead394f58cee9070d4616ba323dabe4fbb4d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 56/76] fix: transition matrices of states could not be counted
 with current numpy

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index bc35ea5..8a81205 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -646,7 +646,7 @@ def states_to_tpms(
             axis=1, return_counts=True
         )
         # converts the indexes for accessing the matrix later
-        states_indices = [(i) for i in states_indices]
+        states_indices = tuple(states_indices)
 
         # compute the sum of the transitions for each states
         transition_matrice = np.full((n_states, n_states), 0)
-- 
2.43.0


From cc8a06a6f30ab9f31735ec96ccc51af82d000f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 57/76] fix: durations of states that never change could not be
 computed

---
 demod/metrics/states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/metrics/states.py b/demod/metrics/states.py
index e6fcdbb..bd41aeb 100644
--- a/demod/metrics/states.py
+++ b/demod/metrics/states.py
@@ -44,7 +44,9 @@ def get_states_durations(states: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
     # find in the indices the start and end of each household
     indices_first_household = np.where(
         household_indices != np.roll(household_indices, 1)
-    )[0] if len(np.unique(household_indices)) > 1 else np.array([0], dtype=int)
+    )[0] if len(np.unique(household_indices)) > 1 else np.arange(
+        min(1, len(household_indices))  # empty without any transition
+    )
     indices_last_household = np.roll(indices_first_household - 1, -1)
 
     # calculate the durations
-- 
2.43.0


From bdbaeb544eceffa8dac1d661281e107359a0a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:27 +0000
Subject: [PATCH 58/76] fix: appliances missed changes of activities passed in
 the same arrays

---
 demod/simulators/appliance_simulators.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index 43a29b3..f1d4c53 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1386,7 +1386,9 @@ class ActivityApplianceSimulator(AppliancesSimulator):
         self._is_used = np.zeros_like(
             self.available_appliances, dtype=bool
         )
-        self.previous_act_dict = initial_activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in initial_activities_dict.items()
+        }
         super().initialize_starting_state(**kwargs)
 
     def _initialize_real_loads(self):
@@ -1461,7 +1463,9 @@ class ActivityApplianceSimulator(AppliancesSimulator):
                     & mask_apps_this_act[np.newaxis, :]
                 ))
 
-        self.previous_act_dict = activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in activities_dict.items()
+        }
 
         super().step()
 
@@ -1781,7 +1785,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
         TODO: implement a good initialization.
         """
         # Remember the previous activities
-        self.previous_act_dict = initial_activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in initial_activities_dict.items()
+        }
 
         super().initialize_starting_state(**kwargs)
 
@@ -1872,7 +1878,9 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
                     can_start_app[mask_start]
                 )
 
-        self.previous_act_dict = activities_dict.copy()
+        self.previous_act_dict = {
+            act: np.array(n) for act, n in activities_dict.items()
+        }
 
         super().step()
 
-- 
2.43.0


From a45e3b4504a37c2eadc1bef02e65c98fb21dbc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:27 +0000
Subject: [PATCH 59/76] fix: thermostats missed changes of occupancy passed in
 the initial arrays

---
 demod/simulators/heating_simulators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/heating_simulators.py b/demod/simulators/heating_simulators.py
index 71f9f87..93eb691 100644
--- a/demod/simulators/heating_simulators.py
+++ b/demod/simulators/heating_simulators.py
@@ -200,8 +200,8 @@ class VariableThermostatTemperatureSimulator(Simulator):
         """
         super().__init__(n_households, *args, **kwargs)
         self.attribute_patterns(pattern_attribution_method)
-        self.last_occupancy = initial_occupancy
-        self.last_act_occ = initial_act_occ
+        self.last_occupancy = np.array(initial_occupancy)
+        self.last_act_occ = np.array(initial_act_occ)
         self.time = start_datetime
         self.initialize_starting_state(0)
 
-- 
2.43.0


From fb75748acf36c9781a48c525788786b6520bf531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:28 +0000
Subject: [PATCH 60/76] fix: sparse states without known transitions disturbed
 other households

---
 demod/utils/sparse.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/demod/utils/sparse.py b/demod/utils/sparse.py
index 0d0d5c0..8a99548 100644
--- a/demod/utils/sparse.py
+++ b/demod/utils/sparse.py
@@ -185,16 +185,22 @@ class SparseTPM():
         # print('pdf_ind, inv', pdf_indices, inv)
         # print('states from available ', self.inds_from[self.times == time])
         mask = (self.times == time) & (np.isin(self.inds_from, pdf_indices))
-        # assume states has no dead states
-        if np.any(~np.isin(states, self.inds_from[mask])):
+        dead_states = ~np.isin(states, self.inds_from[mask])
+        if np.any(dead_states):
             warnings.warn('Are some dead states at step {}'.format(time))
-            if self.dead_state_value is not None:
+            new_states = np.array(states)
+            if np.any(
+                (self.times == time)
+                & (self.inds_from == self.dead_state_value)
+            ):
                 # change the dead states and resample a montecarlo draw
-                states = np.array(states)
-                states[
-                    ~np.isin(states, self.inds_from[mask])
-                ] = self.dead_state_value
-                return self.sparse_monte_carlo(time, states)
+                new_states[dead_states] = self.dead_state_value
+                return self.sparse_monte_carlo(time, new_states)
+            # no transition is known for the dead states, so they stay
+            new_states[~dead_states] = self.sparse_monte_carlo(
+                time, new_states[~dead_states]
+            )
+            return new_states
 
         # compute a flattened cdf containing all the states cdf
         flattened_cdf = np.cumsum(self.values[mask])
-- 
2.43.0


From 749925be04da6377d4667adfd08a0a34b8e0e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:12 +0000
Subject: [PATCH 61/76] fix: irradiance of RenewablesNinja included the one
 above the atmosphere

---
 demod/datasets/RenewablesNinja/loader.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/RenewablesNinja/loader.py b/demod/datasets/RenewablesNinja/loader.py
index 29d7cdd..010272c 100644
--- a/demod/datasets/RenewablesNinja/loader.py
+++ b/demod/datasets/RenewablesNinja/loader.py
@@ -165,9 +165,7 @@ class NinjaRenewablesClimate(ClimateLoader):
 
         out_dict['outside_temperature'] = np.array(df['temperature'])
 
-        radiation_direct = np.array(df['irradiance_surface'])
-        radiation_diffuse = np.array(df['irradiance_toa'])
-        # https://meteonorm.meteotest.ch/en/faq/definition-of-direct-and-diffuse-radiation
-        out_dict['irradiance'] = radiation_diffuse + radiation_direct
+        # direct and diffuse, 'irradiance_toa' is at the top of the atmosphere
+        out_dict['irradiance'] = np.array(df['irradiance_surface'])
 
         return out_dict
-- 
2.43.0


From f6776d50a2864e387c68257953259c3c5db46c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:48 +0000
Subject: [PATCH 62/76] fix: parsed appliances of vBottaccioli lacked the
 targets of the raw data

---
 .../vBottaccioli/appliance_dict.json          | 68 +++++++++++++++++++
 1 file changed, 68 insertions(+)

diff --git a/demod/datasets/Germany/parsed_data/vBottaccioli/appliance_dict.json b/demod/datasets/Germany/parsed_data/vBottaccioli/appliance_dict.json
index e9f19a1..e8ddd6f 100644
--- a/demod/datasets/Germany/parsed_data/vBottaccioli/appliance_dict.json
+++ b/demod/datasets/Germany/parsed_data/vBottaccioli/appliance_dict.json
@@ -407,6 +407,40 @@
     0,
     0
   ],
+  "target_consumption_kWh_year": [
+    297.1,
+    297.1,
+    407.0,
+    407.0,
+    8.76,
+    17.7297346053873,
+    73.5783986123575,
+    348.0,
+    348.0,
+    69.2,
+    69.2,
+    12.0,
+    49.499661152891,
+    129.61,
+    129.61,
+    73.7310058969084,
+    152.464284201826,
+    210.0,
+    276.105844135875,
+    0.0,
+    49.26,
+    76.5624571821228,
+    160.666295473334,
+    32.1070785796487,
+    273.01616986258,
+    313.820216429956,
+    191.041292123096,
+    520.157476087695,
+    22.0,
+    31.0,
+    32.0460077712464,
+    38.0
+  ],
   "poisson_sampling_lambda_liters": [
     297.1,
     297.1,
@@ -475,6 +509,40 @@
     1.24692637242204,
     0.518417462482947
   ],
+  "target_time_running_min_year": [
+    137123.076923077,
+    137123.076923077,
+    111000.0,
+    111000.0,
+    0.0,
+    1063.78407632324,
+    2207.35195837072,
+    134502.579218865,
+    134502.579218865,
+    61464.406779661,
+    61464.406779661,
+    17672.7272727273,
+    2619.50383204547,
+    51238.0165289256,
+    51238.0165289256,
+    106891.457228509,
+    106891.457228511,
+    74880.0,
+    6686.43211677887,
+    0.0,
+    649.764373232799,
+    2838.57967221744,
+    4559.46859849927,
+    876.978672123169,
+    14488.5837436098,
+    7324.37494429666,
+    27035.1102294451,
+    38789.5059813778,
+    6.21468926553672,
+    8.75706214689265,
+    3.4606919839359,
+    4.1036717062635
+  ],
   "switch_on_prob_crest": [
     0.0666891133557801,
     0.0666891133557801,
-- 
2.43.0


From 356ac6a7c377f21d122fa5635d1e972654019de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:53 +0000
Subject: [PATCH 63/76] fix: appliances without a yearly target in the data
 failed for want of a default

The default of an appliance whose type has no yearly target is its
'target_cycle_year', as documented and as the datasets name it; no dataset
has 'target_switchons', so the simulation failed with a KeyError.
---
 demod/simulators/appliance_simulators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/appliance_simulators.py b/demod/simulators/appliance_simulators.py
index f1d4c53..b7b35d3 100644
--- a/demod/simulators/appliance_simulators.py
+++ b/demod/simulators/appliance_simulators.py
@@ -1682,7 +1682,7 @@ class ProbabiliticActivityAppliancesSimulator(AppliancesSimulator):
             target_switchons = get_target_from_dict(
                 self.appliances,
                 target_dict,
-                default_key='target_switchons'
+                default_key='target_cycle_year'
             )
             # Total probability of occurance of this activity
             activity_prob = self.data.load_activity_probabilities(subgroup)
-- 
2.43.0


From e6a7851563cc0a75c4a94c32382f9a92d247a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 64/76] fix: electric cars could not be given another charging
 strategy

---
 demod/simulators/car_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index b152864..f891522 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -64,17 +64,17 @@ class ElectricCarSimulator(Simulator):
         if charging_attribution_method == 'after use':
             return
         elif charging_attribution_method == 'timers':
-            self.charging_strategy = 1
+            self.charging_strategy[:] = 1
         elif charging_attribution_method == 'mixed':
             self.charging_strategy = np.random.randint(0,2,size=len(self.charging_strategy))
         else:
             raise ValueError('Unkonwn chargin strategy')
 
 
-    def __init__(self, n_households, initial_occupancy, initial_HOH, initial_HWH,  subgroup_kwargs, start_time_step=0, **kwargs):
+    def __init__(self, n_households, initial_occupancy, initial_HOH, initial_HWH,  subgroup_kwargs, start_time_step=0, logger=None, **kwargs):
         # define the parameters
 
-        super().__init__(n_households, **kwargs)
+        super().__init__(n_households, logger=logger)
 
         self.dic_cars = self.read_cars(**kwargs)
         self.dic_station = self.read_charging_station(**kwargs)
-- 
2.43.0


From c5d9b3a8db5b6becbe176a449a794c2363335702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 65/76] fix: electric cars could not start at another time step

---
 demod/simulators/car_simulator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index f891522..5f81a59 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -100,7 +100,9 @@ class ElectricCarSimulator(Simulator):
         self.times_left_chargin = np.zeros_like(self.car_hh, dtype=int)
         self.times_used = np.zeros_like(self.car_hh, dtype=int)
         self.is_charging = np.zeros_like(self.car_hh, dtype=bool)
-        return super().initialize_starting_state(start_time_step=start_time_step)
+        return super().initialize_starting_state(
+            start_time_step, self.occupancy, self.n_HOH, self.n_HWH
+        )
 
     def compute_trip_energy(self, mask_arriving_cars):
         """returns tirip energy in kwh
-- 
2.43.0


From 4907e08046f35f8e8624131e8cc8d94ead0c835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 66/76] fix: cars that need more than a day to charge never
 charged on a timer

---
 demod/simulators/car_simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index 5f81a59..b13711b 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -212,7 +212,7 @@ class ElectricCarSimulator(Simulator):
         # for timers before 4 am
         self.is_charging[(self.times_left_chargin == n_times_till_charged)  & (self.charging_strategy[self.car_hh]==1) & (~self.in_use)] = True
         # if the times left chargin is to large, set to charge
-        self.is_charging[(self.times_left_chargin>144) & (~self.in_use)]
+        self.is_charging[(self.times_left_chargin>144) & (~self.in_use)] = True
 
     def update_charging(self):
 
-- 
2.43.0


From ab02a0d4f18cf2f3ed3511b9fe9feb0f8559c280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 67/76] fix: electric cars charged one step less than their
 trips require

---
 demod/simulators/car_simulator.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index b13711b..bc44656 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -124,6 +124,8 @@ class ElectricCarSimulator(Simulator):
         # increment the values of interest
 
         self.times_used[self.in_use] += 1
+        # the cars have been charging since the previous step
+        self.update_charging()
 
 
         # check if there is an arrival
@@ -196,14 +198,16 @@ class ElectricCarSimulator(Simulator):
         self.n_HWH = np.array(n_HWH)
         self.n_HOH = np.array(n_HOH)
 
-        self.update_charging()
-
         super().step()
 
     def start_charging(self, mask_car_start_charging):
 
         # where after use charging stat chargin
-        self.is_charging[mask_car_start_charging & (self.charging_strategy[self.car_hh]==0)] = True
+        self.is_charging[
+            mask_car_start_charging
+            & (self.charging_strategy[self.car_hh]==0)
+            & (self.times_left_chargin > 0)
+        ] = True
         # 6 am timers
         t = (self.current_time_step + 1)%144
         #assume we start simulation at 4 am
-- 
2.43.0


From da4428215586cb3aa776342a3311fa9078a41167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 68/76] fix: cars failed when more than five residents left
 together

---
 demod/simulators/car_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/simulators/car_simulator.py b/demod/simulators/car_simulator.py
index bc44656..c0f0953 100644
--- a/demod/simulators/car_simulator.py
+++ b/demod/simulators/car_simulator.py
@@ -171,8 +171,8 @@ class ElectricCarSimulator(Simulator):
 
 
         probs_leave_with_car = np.zeros_like(mask_departure, dtype=float)
-        probs_leave_with_car[mask_HWH] = self.prob_leave_car_HWH[n_leaving[mask_HWH]]
-        probs_leave_with_car[mask_HOH] = self.prob_leave_car_HOH[n_leaving[mask_HOH]] # hoh will overwrite hwh changes
+        probs_leave_with_car[mask_HWH] = self.prob_leave_car_HWH[np.minimum(n_leaving[mask_HWH], 5)]
+        probs_leave_with_car[mask_HOH] = self.prob_leave_car_HOH[np.minimum(n_leaving[mask_HOH], 5)] # hoh will overwrite hwh changes
         self.probs_leave_with_car = probs_leave_with_car
         # draw from random sample
 
-- 
2.43.0


From fa9d5d7abed93f3ef7bc626f85ffe65f899666e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 69/76] fix: combined subgroups of the German survey ignored
 which diaries to keep

---
 demod/datasets/GermanTOU/parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index c57ed18..76179d1 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -116,6 +116,13 @@ def get_mask_subgroup(
 
     _mask = np.ones(len(df_akt), dtype=bool)
 
+    # The masks that are combined below select among the same diaries
+    recorded = {
+        'only_fully_recorded_household': only_fully_recorded_household,
+        'remove_missing_days': remove_missing_days,
+        'only_household_identical_days': only_household_identical_days,
+    }
+
     if only_fully_recorded_household:
         # check if the diary is in the list of household that have the number of records=number of people living their
         _mask &= np.isin(df_akt['id_hhx'],df_hh['id_hhx'][df_hh['ha1x']-df_hh_max_recorded_persons == 0])
@@ -136,14 +143,14 @@ def get_mask_subgroup(
 
     if weekday:
         if isinstance(weekday, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(weekday=i) for i in weekday])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(weekday=i, **recorded) for i in weekday])
         else:
             assert weekday <= 7 and weekday > 0, 'weekday value must be 1,2,3,4,5,6 or 7'
             _mask &= np.array(df_akt['wtagfei']) == weekday
 
     if n_residents:
         if isinstance(n_residents, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(n_residents=i) for i in n_residents])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(n_residents=i, **recorded) for i in n_residents])
         else:
             assert n_residents <= 6 and n_residents > 0, 'n_residents value must be 1,2,3,4,5 or 6'
             _mask &= np.array(df_hh['ha1x'][df_akt['id_hhx']-1]) == n_residents
@@ -162,7 +169,7 @@ def get_mask_subgroup(
         elif hh_work_type == 'other':
             _mask &= np.array(df_hh['anz_erw'][df_akt['id_hhx']-1]) == 7
         elif hh_work_type == '1_retired':
-            _mask &= get_mask_subgroup(n_residents=1, life_situation=8)
+            _mask &= get_mask_subgroup(n_residents=1, life_situation=8, **recorded)
         elif hh_work_type == '2_retired':
             # get the households where there are 2 retired
             hh_2res = df_hh['id_hhx'][df_hh['ha1x'] == 2]
@@ -188,7 +195,7 @@ def get_mask_subgroup(
 
     if life_situation:
         if isinstance(life_situation, list):
-            _mask &= np.logical_or.reduce([get_mask_subgroup(life_situation=i) for i in life_situation])
+            _mask &= np.logical_or.reduce([get_mask_subgroup(life_situation=i, **recorded) for i in life_situation])
         elif isinstance(life_situation, dict):
             # individual life situation for all households memebers
             # get households with the corresponding life situations
-- 
2.43.0


From 8c0a273593121a855d56d13c6329507130dc0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:07 +0000
Subject: [PATCH 70/76] fix: data of subgroups with ranges of ages could not be
 saved

---
 demod/utils/parse_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/utils/parse_helpers.py b/demod/utils/parse_helpers.py
index 8a81205..12ad318 100644
--- a/demod/utils/parse_helpers.py
+++ b/demod/utils/parse_helpers.py
@@ -322,7 +322,7 @@ def make_jsonable(object: Any):
             make_jsonable(key): make_jsonable(item)
             for key, item in object.items()
         }
-    elif isinstance(object, (np.ndarray, list, pandas.Series)):
+    elif isinstance(object, (np.ndarray, list, tuple, pandas.Series)):
         return [make_jsonable(elem) for elem in object]
     elif isinstance(object, (str, int, float)):
         return object
-- 
2.43.0


From 85f801dff42c74342de467ee6ca6b5c55d1fb95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:32 +0000
Subject: [PATCH 71/76] fix: probabilities of subgroups in which nobody leaves
 or sleeps

---
 demod/datasets/GermanTOU/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index 17c356f..f23629d 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -397,8 +397,8 @@ class GTOU(LoaderTOU, PopulationLoader):
         # adds the active occupancy
         activity_probabilities['active_occupancy'] = np.clip(
             1.
-            -  activity_probabilities['away']
-            -  activity_probabilities['sleeping'],
+            -  activity_probabilities.get('away', np.zeros(states.shape[1]))
+            -  activity_probabilities.get('sleeping', 0.),
             0., 1.
         )
 
-- 
2.43.0


From a1b3a8c222f711f5a5863bc9b2e893b63bad2a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:14 +0000
Subject: [PATCH 72/76] fix: the ratings of activities at home were mistaken
 for their positions

---
 demod/datasets/GermanTOU/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 76179d1..43d85f3 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1553,9 +1553,9 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         There is no guarantee on the validity of this, but results seems ok
     """
     # convert the states to their home indice rating
-    main_rating, _         = convert_states(primary_states, dic_home)
-    secondary_rating, _    = convert_states(secondary_states, dic_home)
-    home_ratings = main_rating + secondary_rating
+    main_states, main_rating           = convert_states(primary_states, dic_home)
+    sec_states, secondary_rating       = convert_states(secondary_states, dic_home)
+    home_ratings = main_rating[main_states] + secondary_rating[sec_states]
 
     #initialize the occupancy
     current_occupancy= np.zeros_like(initial_occupancy, dtype=bool)
-- 
2.43.0


From e4bbe4f8ee331fb38470a4d2b0323c412dc4eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:14 +0000
Subject: [PATCH 73/76] fix: who was travelling was never remembered, so that
 nobody came back before the last journey

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 43d85f3..472b15a 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1597,7 +1597,7 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
 
         #
-        mask_travelling = np.array(mask_was_travelling)
+        mask_was_travelling = np.array(mask_travelling)
         occupancies.append(np.array(current_occupancy))
 
     return np.asarray(occupancies).T
-- 
2.43.0


From aceb29aaef6fe557d72509bf467fe810097b1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:14 +0000
Subject: [PATCH 74/76] fix: the place after a last journey of unknown end did
 not follow the rating

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 472b15a..b353073 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1594,7 +1594,7 @@ def states_to_occupancy(primary_states, secondary_states, initial_occupancy, fin
         current_occupancy[mask_after_last_travel & (final_occupancy == 1)] = True
         current_occupancy[mask_after_last_travel & (final_occupancy == 2)] = False
         # keine angabe gets the last value probability
-        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)]
+        current_occupancy[mask_after_last_travel & (final_occupancy == -1)] =  home_ratings.T[-1][mask_after_last_travel & (final_occupancy == -1)] >= 0
 
         #
         mask_was_travelling = np.array(mask_travelling)
-- 
2.43.0


From 85eee16e1d82d898d66a9b505c811784bbc5980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:14 +0000
Subject: [PATCH 75/76] fix: diaries that end where the next day starts took
 the day before

---
 demod/datasets/GermanTOU/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index b353073..50a2b45 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -50,7 +50,7 @@ travelling          = np.array(df_akt['tc5'])
 initial_location    = np.array(df_akt['tc7'])
 final_location      = np.array(df_akt['tc8'])
 # 'trifft nicht zu' = -2 and means that the start location of the next day should be used
-final_location[final_location==-2] = np.roll(initial_location, 1)[final_location==-2]
+final_location[final_location==-2] = np.roll(initial_location, -1)[final_location==-2]
 
 # get a link between df_akt and df_pers
 df_akt_index_person = np.array([np.where(df_pers['id_persx'] == i)[0][0] for i in df_akt['id_persx']])
-- 
2.43.0


From 4d7e33b2992341952061a4e7cbb2ae1aee1d7b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:14 +0000
Subject: [PATCH 76/76] fix: secondary activities never replaced other ones

---
 demod/datasets/GermanTOU/loader.py | 15 ++++++++++-----
 demod/datasets/GermanTOU/parser.py | 11 +++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/demod/datasets/GermanTOU/loader.py b/demod/datasets/GermanTOU/loader.py
index f23629d..1510b42 100644
--- a/demod/datasets/GermanTOU/loader.py
+++ b/demod/datasets/GermanTOU/loader.py
@@ -264,7 +264,9 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         return_hh will also return the household id
         """
-        from .parser import primary_states, occ, get_mask_subgroup
+        from .parser import (
+            primary_states, secondary_states, occ, get_mask_subgroup
+        )
 
         # Sets some information on activity for the loading
         self._load_rawdata_info()
@@ -292,9 +294,10 @@ class GTOU(LoaderTOU, PopulationLoader):
 
         if self.use_secondary_states:
             # Gets the secondary states
-            raw_sec_states = primary_states[mask_subgroup]
+            raw_sec_states = secondary_states[mask_subgroup]
             sec_states, sec_states_label = convert_states(
-                raw_sec_states, activity_dict
+                # 0 means that there is only a main activity
+                raw_sec_states, {**activity_dict, 0: 'other'}
             )
             sec_states_label[sec_states_label=='-'] = 'other'
             # Find where to replace
@@ -303,8 +306,10 @@ class GTOU(LoaderTOU, PopulationLoader):
                 & (sec_states_label[sec_states] != 'other')
             )
             # Recontruct a states array with the secondary states
-            raw_act_array = states_label[states]
-            raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+            raw_act_array = np.where(
+                mask_can_replace,
+                sec_states_label[sec_states], states_label[states]
+            )
             # Finds back in states format
             states, states_label = convert_states(raw_act_array)
 
diff --git a/demod/datasets/GermanTOU/parser.py b/demod/datasets/GermanTOU/parser.py
index 50a2b45..4003545 100644
--- a/demod/datasets/GermanTOU/parser.py
+++ b/demod/datasets/GermanTOU/parser.py
@@ -1772,9 +1772,10 @@ def get_tpms_activity(
 
     if use_sec_states:
         # Gets the secondary states
-        raw_sec_states = primary_states[mask_subgroup]
+        raw_sec_states = secondary_states[mask_subgroup]
         sec_states, sec_states_label = convert_states(
-            raw_sec_states, activity_dict
+            # 0 means that there is only a main activity
+            raw_sec_states, {**activity_dict, 0: 'other'}
         )
         sec_states_label[sec_states_label=='-'] = 'other'
         # Find where to replace
@@ -1783,8 +1784,10 @@ def get_tpms_activity(
             & (sec_states_label[sec_states] != 'other')
         )
         # Recontruct a states array with the secondary states
-        raw_act_array = states_label[states]
-        raw_act_array[mask_can_replace] = sec_states_label[sec_states][mask_can_replace]
+        raw_act_array = np.where(
+            mask_can_replace,
+            sec_states_label[sec_states], states_label[states]
+        )
         # Finds back in states format
         states, states_label = convert_states(raw_act_array)
 
-- 
2.43.0

