From f2b3eab92171aae7fc631ee165570cfd34c52dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 01/71] fix: keep a non-default CRS through the crs setter,
 import, copy and slicing

The crs setter called GeoDataFrame.set_crs without inplace, so any value other
than the current one raised or was ignored; a network after to_crs() could be
exported but neither re-imported nor copied nor sliced.
---
 pypsa/io.py       | 3 +--
 pypsa/networks.py | 8 ++++----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b6c9b9b..eef785a 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1205,8 +1205,7 @@ def _import_from_importer(
     crs = importer.get_crs()
     crs = crs.pop("_crs", None)
     if crs is not None:
-        crs = CRS.from_wkt(crs)
-        n._crs = crs
+        n.crs = CRS.from_wkt(crs)
 
     current_pypsa_version = [int(s) for s in n.pypsa_version.split(".")]
     pypsa_version = None
diff --git a/pypsa/networks.py b/pypsa/networks.py
index 51f4a8f..e0beaf7 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -652,7 +652,7 @@ class Network:
         Set the coordinate reference system of the network's geometries
         (n.shapes).
         """
-        self.shapes.set_crs(new)
+        self.shapes.set_crs(new, allow_override=True, inplace=True)
         self._crs = self.shapes.crs
 
     def to_crs(self, new: int | str | pyproj.CRS) -> None:
@@ -1529,6 +1529,7 @@ class Network:
 
         # Setup new network
         n = self.__class__(ignore_standard_types=ignore_standard_types)
+        n.crs = self.crs
 
         # Copy components
         other_comps = sorted(self.all_components - {"Bus", "Carrier"})
@@ -1572,7 +1573,6 @@ class Network:
         # Catch all remaining attributes of network
         for attr in [
             "name",
-            "srid",
             "_meta",
             "_linearized_uc",
             "_multi_invest",
@@ -1617,6 +1617,7 @@ class Network:
 
         # Setup new network
         n = self.__class__()
+        n.crs = self.crs
 
         n.add(
             "Bus",
@@ -1667,8 +1668,7 @@ class Network:
                 pass
 
         # catch all remaining attributes of network
-        for attr in ["name", "_crs"]:
-            setattr(n, attr, getattr(self, attr))
+        n.name = self.name
 
         n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
 
-- 
2.43.0


From 081f240437b7298a5bb112fcb933c5158599774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 02/71] fix: remove stale component and series data when
 re-exporting over CSV folders and Excel files

ExporterCSV.remove_static looked in a non-existing sub-folder, so components
(and series of attributes the network no longer has) of an older export in the
same place came back on import.
---
 pypsa/io.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index eef785a..b56ec3f 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -259,6 +259,8 @@ class ExporterCSV(Exporter):
             )
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
+        # Series of a previous export, current ones are (re-)written afterwards
+        self._remove_stale(f"{list_name}-*.csv")
         fn = self.csv_folder_name.joinpath(list_name + ".csv")
         with fn.open("w"):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
@@ -268,11 +270,15 @@ class ExporterCSV(Exporter):
         with fn.open("w"):
             df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
 
-    def remove_static(self, list_name: str) -> None:
-        if fns := list(self.csv_folder_name.joinpath(list_name).glob("*.csv")):
+    def _remove_stale(self, pattern: str) -> None:
+        if fns := list(self.csv_folder_name.glob(pattern)):
             for fn in fns:
                 fn.unlink()
-            logger.warning(f"Stale csv file(s) {', '.join(fns)} removed")
+            logger.info(f"Stale csv file(s) {', '.join(map(str, fns))} removed")
+
+    def remove_static(self, list_name: str) -> None:
+        self._remove_stale(f"{list_name}.csv")
+        self._remove_stale(f"{list_name}-*.csv")
 
     def remove_series(self, list_name: str, attr: str) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
@@ -442,16 +448,25 @@ class ExporterExcel(Exporter):
         investment_periods.to_excel(self.writer, sheet_name="investment_periods")
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
+        # Series of a previous export, current ones are (re-)written afterwards
+        self._remove_stale_series(list_name)
         df.to_excel(self.writer, sheet_name=list_name)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         sheet_name = f"{list_name}-{attr}"
         df.to_excel(self.writer, sheet_name=sheet_name)
 
+    def _remove_stale_series(self, list_name: str) -> None:
+        for sheet_name in self.writer.book.sheetnames:
+            if sheet_name.startswith(f"{list_name}-"):
+                del self.writer.book[sheet_name]
+                logger.info(f"Stale sheet {sheet_name} removed")
+
     def remove_static(self, list_name: str) -> None:
         if list_name in self.writer.book.sheetnames:
             del self.writer.book[list_name]
             logger.warning(f"Stale sheet {list_name} removed")
+        self._remove_stale_series(list_name)
 
     def remove_series(self, list_name: str, attr: str) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From b7db593805365df098660b3a2e2ceaf7f4c094e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 03/71] fix: report write errors of meta.json and crs.json in
 the CSV export

The files were left to the garbage collector to close, which swallows errors
of the final flush.
---
 pypsa/io.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index b56ec3f..50d01c6 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -162,11 +162,11 @@ class ImporterCSV(Importer):
 
     def get_meta(self) -> dict:
         fn = self.csv_folder_name.joinpath("meta.json")
-        return {} if not fn.is_file() else json.loads(fn.open().read())
+        return {} if not fn.is_file() else json.loads(fn.read_text())
 
     def get_crs(self) -> dict:
         fn = self.csv_folder_name.joinpath("crs.json")
-        return {} if not fn.is_file() else json.loads(fn.open().read())
+        return {} if not fn.is_file() else json.loads(fn.read_text())
 
     def get_snapshots(self) -> pd.Index:
         fn = self.csv_folder_name.joinpath("snapshots.csv")
@@ -240,11 +240,13 @@ class ExporterCSV(Exporter):
 
     def save_meta(self, meta: dict) -> None:
         fn = self.csv_folder_name.joinpath("meta.json")
-        fn.open("w").write(json.dumps(meta))
+        with fn.open("w") as f:
+            f.write(json.dumps(meta))
 
     def save_crs(self, crs: dict) -> None:
         fn = self.csv_folder_name.joinpath("crs.json")
-        fn.open("w").write(json.dumps(crs))
+        with fn.open("w") as f:
+            f.write(json.dumps(crs))
 
     def save_snapshots(self, snapshots: pd.Index) -> None:
         fn = self.csv_folder_name.joinpath("snapshots.csv")
-- 
2.43.0


From e1eac5163d13405c5f0025adf1fb5bbc1fe9f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 04/71] fix: leave the network unchanged when set_snapshots
 rejects empty snapshots

---
 pypsa/networks.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index e0beaf7..4ca2c9f 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -736,13 +736,14 @@ class Network:
                 raise ValueError(msg)
             sns = snapshots.rename(["period", "timestep"])
             sns.name = "snapshot"
-            self._snapshots = sns
         else:
-            self._snapshots = pd.Index(snapshots, name="snapshot")
+            sns = pd.Index(snapshots, name="snapshot")
 
-        if len(self._snapshots) == 0:
+        if len(sns) == 0:
             raise ValueError("Snapshots must not be empty.")
 
+        self._snapshots = sns
+
         self.snapshot_weightings = self.snapshot_weightings.reindex(
             self._snapshots, fill_value=default_snapshot_weightings
         )
-- 
2.43.0


From 010574c4faab59387128311e45f2cbc39d73afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 05/71] fix: restore the original value when option_context
 names an option twice

---
 pypsa/_options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/_options.py b/pypsa/_options.py
index ce47df8..031ba9e 100644
--- a/pypsa/_options.py
+++ b/pypsa/_options.py
@@ -228,7 +228,7 @@ def option_context(*args: Any) -> Generator[None, None, None]:
     try:
         # Store original values and set new ones
         for option_name, value in pairs:
-            original_values[option_name] = options.get_option(option_name)
+            original_values.setdefault(option_name, options.get_option(option_name))
             options.set_option(option_name, value)
         yield
     finally:
-- 
2.43.0


From 30cd43d5ecb3439a2b793c42ba620db4ac1f4684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:10 +0000
Subject: [PATCH 06/71] fix: rename components other than buses

rename_component_names raised KeyError for every other component type (after
having renamed it already) because it assumed port-suffixed reference columns.
---
 pypsa/components/abstract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 2145738..044ba4c 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -724,7 +724,9 @@ class Components(ComponentsData, ABC):
         if self.attached:
             for c in self.n_save.components.values():
                 col_name = self.name.lower()  # TODO: Generalize
-                cols = [f"{col_name}{port}" for port in c.ports]
+                cols = c.static.columns.intersection(
+                    [col_name, *(f"{col_name}{port}" for port in c.ports)]
+                ).tolist()
                 if cols and not c.static.empty:
                     c.static[cols] = c.static[cols].replace(kwargs)
 
-- 
2.43.0


From bdd5cbe9dfafbe160cb36659597f8dc0ce6ee6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 07/71] fix: keep the order of custom attributes independent of
 the string hash seed

---
 pypsa/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 50d01c6..88249ba 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1339,10 +1339,10 @@ def _sort_attrs(df: pd.DataFrame, attrs_list: list[str], axis: int) -> pd.DataFr
     -------
     pandas.DataFrame
     """
-    df_cols_set = set(df.columns if axis == 1 else df.index)
+    df_cols = df.columns if axis == 1 else df.index
 
-    existing_cols = [col for col in attrs_list if col in df_cols_set]
-    remaining_cols = list(df_cols_set - set(attrs_list))
+    existing_cols = [col for col in attrs_list if col in df_cols]
+    remaining_cols = [col for col in df_cols if col not in attrs_list]
 
     return df.reindex(existing_cols + remaining_cols, axis=axis)
 
-- 
2.43.0


From 26094140699c1587d2593c5369ef7a31ab3d0a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 08/71] fix: do not leak additional link ports between networks

update_linkports_component_attrs extended the defaults table shared by all
networks, so a multi-port link in one network added attributes to others.
---
 pypsa/descriptors.py | 8 ++++++++
 pypsa/networks.py    | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index c8a3188..6b22766 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -15,6 +15,7 @@ import numpy as np
 import pandas as pd
 
 from pypsa.common import as_index, deprecated_common_kwargs
+from pypsa.components.types import get as get_component_type
 
 if TYPE_CHECKING:
     from pypsa import Network, SubNetwork
@@ -437,6 +438,7 @@ def update_linkports_component_attrs(
     ports = additional_linkports(n, where)
     ports.sort(reverse=True)
     c = "Link"
+    n_attrs = len(n.components[c]["attrs"])
 
     for i, attr in product(ports, ["bus", "efficiency", "p"]):
         target = f"{attr}{i}"
@@ -459,6 +461,12 @@ def update_linkports_component_attrs(
         elif attr == "bus" and target not in n.static(c).columns:
             n.static(c)[target] = n.components[c]["attrs"].loc[target, "default"]
 
+    # Keep the order independent of the order in which ports have been added
+    if len(n.components[c]["attrs"]) > n_attrs:
+        order = get_component_type(c).defaults.index
+        order = order.append(n.components[c]["attrs"].index.drop(order).sort_values())
+        n.components[c]["attrs"].sort_index(key=order.get_indexer, inplace=True)
+
 
 def additional_linkports(n: Network, where: Iterable[str] | None = None) -> list[str]:
     """
diff --git a/pypsa/networks.py b/pypsa/networks.py
index 4ca2c9f..2e95b66 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -7,6 +7,7 @@ import logging
 import os
 import warnings
 from collections.abc import Collection, Iterator, Sequence
+from dataclasses import replace
 from typing import TYPE_CHECKING, Any
 from weakref import ref
 
@@ -491,6 +492,8 @@ class Network:
         self.components = ComponentsStore()
         for c_name in components:
             ctype = get_component_type(c_name)
+            # Defaults can be extended per network (see additional link ports)
+            ctype = replace(ctype, defaults=ctype.defaults.copy())
 
             self.components[ctype.list_name] = Component(ctype=ctype, n=self)
 
-- 
2.43.0


From 6e765aa3418a0b12ddaebc1d93a838959380b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 09/71] fix: compare networks where only one has been assigned
 an optional attribute

Network.equals raised KeyError, e.g. when a network is compared with its copy.
---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 2e95b66..63f9386 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -440,7 +440,7 @@ class Network:
             for key, value in self.__dict__.items():
                 if not equals(
                     value,
-                    other.__dict__[key],
+                    getattr(other, key, None),
                     ignored_classes=ignore,
                     log_mode=log_mode,
                     path="n." + key,
-- 
2.43.0


From 3ee9e7ea80d843bdc6a5f6c9fb09ad9f8de9aa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 10/71] fix: export default-valued series which override a
 non-default static value

Such series were dropped on export, so the static value took over on import.
---
 pypsa/io.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 88249ba..be06762 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -846,17 +846,20 @@ def _export_to_exporter(
                 col_export = dynamic[attr].columns
             else:
                 default = attrs.at[attr, "default"]
+                values = dynamic[attr]
+                # default series matter where they hide a non-default static value
+                if attr in static.columns:
+                    static_values = static[attr].reindex(values.columns)
+                    values = pd.concat([values, static_values.to_frame().T])
 
                 if pd.isnull(default):
-                    col_export = dynamic[attr].columns[
-                        (~pd.isnull(dynamic[attr])).any()
-                    ]
+                    col_export = values.columns[(~pd.isnull(values)).any()]
                 else:
-                    col_export = dynamic[attr].columns[(dynamic[attr] != default).any()]
+                    col_export = values.columns[(values != default).any()]
 
             if len(col_export) > 0:
-                static = dynamic[attr].reset_index()[col_export]
-                exporter.save_series(list_name, attr, static)
+                series = dynamic[attr].reset_index()[col_export]
+                exporter.save_series(list_name, attr, series)
             else:
                 exporter.remove_series(list_name, attr)
 
-- 
2.43.0


From 7cdfcdc00dc2bc5f30e44ea4063c46c39e7e2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 11/71] fix: keep integer, text and default snapshots through
 CSV and Excel import

Snapshots were passed to pd.to_datetime unconditionally: integers became
timestamps around 1970, the default label 'now' the current time and any other
text label made the import fail.
---
 pypsa/io.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index be06762..1d259ca 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -22,6 +22,7 @@ import pandas as pd
 import validators
 import xarray as xr
 from deprecation import deprecated
+from pandas.api.types import is_numeric_dtype
 from pyproj import CRS
 
 from pypsa.common import check_optional_dependency, deprecated_common_kwargs
@@ -66,6 +67,17 @@ def _retrieve_from_url(url: str, io_function: Callable) -> pd.DataFrame | Networ
         return io_function(file_path)
 
 
+def _parse_datetimes(level: pd.Series) -> pd.Series:
+    """Parse a snapshot level stored as text, unless it holds other labels."""
+    # pandas parses the label "now" (default snapshot) as the current time
+    if is_numeric_dtype(level) or level.isin(["now", "today"]).any():
+        return level
+    try:
+        return pd.to_datetime(level)
+    except ValueError:
+        return level
+
+
 # TODO: Restructure abc inheritance
 
 
@@ -181,9 +193,9 @@ class ImporterCSV(Importer):
         )
         # backwards-compatibility: level "snapshot" was rename to "timestep"
         if "snapshot" in df:
-            df["snapshot"] = pd.to_datetime(df.snapshot)
+            df["snapshot"] = _parse_datetimes(df.snapshot)
         if "timestep" in df:
-            df["timestep"] = pd.to_datetime(df.timestep)
+            df["timestep"] = _parse_datetimes(df.timestep)
         return df
 
     def get_investment_periods(self) -> pd.Series:
@@ -358,9 +370,9 @@ class ImporterExcel(Importer):
             df = df.set_index(df.columns[0])
             # backwards-compatibility: level "snapshot" was rename to "timestep"
             if "snapshot" in df:
-                df["snapshot"] = pd.to_datetime(df.snapshot)
+                df["snapshot"] = _parse_datetimes(df.snapshot)
             if "timestep" in df:
-                df["timestep"] = pd.to_datetime(df.timestep)
+                df["timestep"] = _parse_datetimes(df.timestep)
             return df
         except (ValueError, KeyError):
             return None
-- 
2.43.0


From cfc540847ab74103e29713f22d41ec3d65ce8b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:44 +0000
Subject: [PATCH 12/71] fix: do not share custom series between merged networks

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 1d259ca..2be425c 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1593,7 +1593,7 @@ def _import_series_from_df(
     expected_attrs = attrs[lambda ds: ds.type.str.contains("series")].index
     if attr not in expected_attrs:
         if overwrite or attr not in dynamic:
-            dynamic[attr] = df
+            dynamic[attr] = df.copy()
         return
 
     # Check if any snapshots are missing
-- 
2.43.0


From a7dbff92cb741b218bf777894f50cb97e3ae476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 13/71] fix: fill the efficiency of additional link ports of
 already existing links

---
 pypsa/descriptors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 6b22766..73d00fd 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -458,7 +458,7 @@ def update_linkports_component_attrs(
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
             df.columns.name = c
             n.dynamic(c)[target] = df
-        elif attr == "bus" and target not in n.static(c).columns:
+        if attr in ["bus", "efficiency"] and target not in n.static(c).columns:
             n.static(c)[target] = n.components[c]["attrs"].loc[target, "default"]
 
     # Keep the order independent of the order in which ports have been added
-- 
2.43.0


From fe71ac3525db50ab13641df8dfbf9639855d63a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 14/71] fix: Excel export of components without any non-default
 attribute

The sheet got an additional row which became a component called 'name' on import.
---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 2be425c..030c6da 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -464,7 +464,8 @@ class ExporterExcel(Exporter):
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
         # Series of a previous export, current ones are (re-)written afterwards
         self._remove_stale_series(list_name)
-        df.to_excel(self.writer, sheet_name=list_name)
+        # pandas writes an extra row if there is an index but no column
+        df.reset_index().to_excel(self.writer, sheet_name=list_name, index=False)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         sheet_name = f"{list_name}-{attr}"
-- 
2.43.0


From 583baa0d77f251abd1f50fd1d7ae28d654f91fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 15/71] fix: import an empty network name from CSV and Excel as
 empty string instead of NaN

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 030c6da..0f9f05d 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1244,7 +1244,8 @@ def _import_from_importer(
     pypsa_version = None
 
     if attrs is not None:
-        n.name = attrs.pop("name")
+        name = attrs.pop("name")
+        n.name = "" if pd.isnull(name) else str(name)
 
         try:
             pypsa_version = [int(s) for s in attrs.pop("pypsa_version").split(".")]
-- 
2.43.0


From 988741d066ca25faeaa6284e29abfd27633da99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:47 +0000
Subject: [PATCH 16/71] fix: set the default efficiency when a link gets a new
 port without one

---
 pypsa/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 0f9f05d..2831b1b 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1447,14 +1447,14 @@ def _import_components_from_df(
     cls_name : string
         Name of class of component, e.g. ``"Line", "Bus", "Generator", "StorageUnit"``
     """
+    if cls_name == "Link":
+        update_linkports_component_attrs(n, where=df)
+
     attrs = n.components[cls_name]["attrs"]
 
     static_attrs = attrs[attrs.static].drop("name")
     non_static_attrs = attrs[~attrs.static]
 
-    if cls_name == "Link":
-        update_linkports_component_attrs(n, where=df)
-
     # Clean dataframe and ensure correct types
     df = pd.DataFrame(df)
     df.index = df.index.astype(str)
-- 
2.43.0


From a0b8bff605e2e1bab7c884e4db68c332cc1186c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 17/71] fix: avoid a warning when importing datetime snapshots
 from Excel

---
 pypsa/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 2831b1b..21edfa8 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -70,7 +70,7 @@ def _retrieve_from_url(url: str, io_function: Callable) -> pd.DataFrame | Networ
 def _parse_datetimes(level: pd.Series) -> pd.Series:
     """Parse a snapshot level stored as text, unless it holds other labels."""
     # pandas parses the label "now" (default snapshot) as the current time
-    if is_numeric_dtype(level) or level.isin(["now", "today"]).any():
+    if is_numeric_dtype(level) or {"now", "today"}.intersection(level):
         return level
     try:
         return pd.to_datetime(level)
-- 
2.43.0


From 54bab3710937788ea9fffadca21e230986c06b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:18 +0000
Subject: [PATCH 18/71] fix: replace unreadable Excel files of interrupted
 exports

---
 pypsa/io.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 21edfa8..3e4cc62 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -9,6 +9,8 @@ import logging
 import math
 import os
 import tempfile
+import zipfile
+import zlib
 from abc import abstractmethod
 from collections.abc import Callable, Collection, Iterable, Sequence
 from functools import partial
@@ -425,12 +427,14 @@ class ExporterExcel(Exporter):
     @property
     def writer(self) -> pd.ExcelWriter:
         if self._writer is None:
-            self._writer = pd.ExcelWriter(
-                self.excel_file_path,
-                engine=self.engine,
-                mode="a" if self.excel_file_path.exists() else "w",
-                if_sheet_exists="replace",
-            )
+            writer = partial(pd.ExcelWriter, self.excel_file_path, engine=self.engine)
+            try:
+                self._writer = writer(mode="a", if_sheet_exists="replace")
+            except (zipfile.BadZipFile, zlib.error, KeyError):
+                logger.warning(
+                    f"Excel file {self.excel_file_path} is not readable, replacing it"
+                )
+                self._writer = writer(mode="w")
         return self._writer
 
     def save_attributes(self, attrs: dict) -> None:
-- 
2.43.0


From 9a701ebcb424c785d9df94c4c1eae6aa2869b327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:18 +0000
Subject: [PATCH 19/71] fix: report write errors of the HDF5 export and upload
 complete files

---
 pypsa/io.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 3e4cc62..f6096e0 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -566,14 +566,17 @@ class ExporterHDF5(Exporter):
             "`pip install pypsa[hdf5]` or `conda install -c conda-forge pypsa[hdf5]`.",
         )
         path = Path(path)
-        self._hdf5_handle = path.open("w")
-        self.ds = pd.HDFStore(path, mode="w", **kwargs)
+        self._hdf5_handle = path.open("wb")
+        # PyTables ignores write errors, so only let it write to memory
+        kwargs = {"driver": "H5FD_CORE", "driver_core_backing_store": 0, **kwargs}
+        self.ds = pd.HDFStore(self._hdf5_handle.name, mode="w", **kwargs)
         self.index: dict = {}
 
     def __exit__(
         self, exc_type: type, exc_val: BaseException, exc_tb: TracebackType
     ) -> None:
-        super().__exit__(exc_type, exc_val, exc_tb)
+        with self._hdf5_handle:
+            super().__exit__(exc_type, exc_val, exc_tb)
 
     def save_attributes(self, attrs: dict) -> None:
         name = attrs.pop("name")
@@ -612,7 +615,8 @@ class ExporterHDF5(Exporter):
         self.ds.put("/" + list_name + "_t/" + attr, df, format="table", index=False)
 
     def finish(self) -> None:
-        self._hdf5_handle.close()
+        self.ds.flush()
+        self._hdf5_handle.write(self.ds.root._v_file.get_file_image())
 
 
 class ImporterNetCDF(Importer):
-- 
2.43.0


From 9f7447ed3993bbef1be177b4f1a354881618fe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:18 +0000
Subject: [PATCH 20/71] fix: export over existing files in the cloud

---
 pypsa/io.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index f6096e0..8513ed6 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -245,12 +245,15 @@ class ExporterCSV(Exporter):
             logger.warning(f"Directory {csv_folder_name} does not exist, creating it")
             self.csv_folder_name.mkdir()
 
+    def _to_csv(self, df: pd.DataFrame, fn: Path) -> None:
+        with fn.open("w", encoding=self.encoding or "utf-8", newline="") as f:
+            df.to_csv(f, quotechar=self.quotechar)
+
     def save_attributes(self, attrs: dict) -> None:
         name = attrs.pop("name")
         df = pd.DataFrame(attrs, index=pd.Index([name], name="name"))
         fn = self.csv_folder_name.joinpath("network.csv")
-        with fn.open("w"):
-            df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
+        self._to_csv(df, fn)
 
     def save_meta(self, meta: dict) -> None:
         fn = self.csv_folder_name.joinpath("meta.json")
@@ -264,27 +267,21 @@ class ExporterCSV(Exporter):
 
     def save_snapshots(self, snapshots: pd.Index) -> None:
         fn = self.csv_folder_name.joinpath("snapshots.csv")
-        with fn.open("w"):
-            snapshots.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
+        self._to_csv(snapshots, fn)
 
     def save_investment_periods(self, investment_periods: pd.Index) -> None:
         fn = self.csv_folder_name.joinpath("investment_periods.csv")
-        with fn.open("w"):
-            investment_periods.to_csv(
-                fn, encoding=self.encoding, quotechar=self.quotechar
-            )
+        self._to_csv(investment_periods, fn)
 
     def save_static(self, list_name: str, df: pd.DataFrame) -> None:
         # Series of a previous export, current ones are (re-)written afterwards
         self._remove_stale(f"{list_name}-*.csv")
         fn = self.csv_folder_name.joinpath(list_name + ".csv")
-        with fn.open("w"):
-            df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
+        self._to_csv(df, fn)
 
     def save_series(self, list_name: str, attr: str, df: pd.DataFrame) -> None:
         fn = self.csv_folder_name.joinpath(list_name + "-" + attr + ".csv")
-        with fn.open("w"):
-            df.to_csv(fn, encoding=self.encoding, quotechar=self.quotechar)
+        self._to_csv(df, fn)
 
     def _remove_stale(self, pattern: str) -> None:
         if fns := list(self.csv_folder_name.glob(pattern)):
@@ -749,8 +746,8 @@ class ExporterNetCDF(Exporter):
             self.set_compression_encoding()
         if self.path is not None:
             _path = Path(self.path)
-            with _path.open("w"):
-                self.ds.to_netcdf(_path)
+            with _path.open("w") as f:
+                self.ds.to_netcdf(f.name)
 
 
 @deprecated_common_kwargs
-- 
2.43.0


From 4d0fa9a03a2a4971c8a927364ef7a7528dd7f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:03 +0000
Subject: [PATCH 21/71] fix: report read errors of the HDF5 import instead of
 dropping data

---
 pypsa/io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 8513ed6..666f39e 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -509,7 +509,8 @@ class ImporterHDF5(Importer):
         self.path = path
         self.ds: pd.HDFStore
         if isinstance(path, (str | Path)):
-            reader = partial(pd.HDFStore, mode="r")
+            # PyTables ignores read errors, so only let it read from memory
+            reader = partial(pd.HDFStore, mode="r", driver="H5FD_CORE")
             if validators.url(str(path)):
                 self.ds = _retrieve_from_url(str(path), reader)
             else:
-- 
2.43.0


From 32b18e9e91f8b1c314e27c25731103a3c68697b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 22/71] fix: inactive branches close no cycles of Kirchhoff's
 voltage law

---
 pypsa/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 850e69f..ecee47d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1387,7 +1387,9 @@ def find_cycles(sub_network: SubNetwork, weight: str = "x_pu") -> None:
     branches_i = branches_bus0.index
 
     # reduce to a non-multi-graph for cycles with > 2 edges
-    mgraph = sub_network.graph(weight=weight, inf_weight=False)
+    mgraph = sub_network.graph(
+        weight=weight, inf_weight=False, include_inactive=False
+    )
     graph = nx.Graph(mgraph)
 
     cycles = nx.cycle_basis(graph)
-- 
2.43.0


From 7bc848ee8d63bec3594bfc40b3d27f544612dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 23/71] fix: add losses of all passive branches, for the
 optimised snapshots only

---
 pypsa/optimization/optimize.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index d42280a..0ae9430 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -469,11 +469,14 @@ def post_processing(n: Network) -> None:
     if len(n.loads):
         set_from_frame(n, "Load", "p", get_as_dense(n, "Load", "p_set", sns))
 
-    # line losses
-    if "Line-loss" in n.model.variables:
-        losses = n.model["Line-loss"].solution.to_pandas()
-        n.lines_t.p0 += losses / 2
-        n.lines_t.p1 += losses / 2
+    # losses of passive branches
+    for c in n.passive_branch_components:
+        if f"{c}-loss" in n.model.variables:
+            losses = n.model[f"{c}-loss"].solution.to_pandas().fillna(0.0)
+            dynamic = n.dynamic(c)
+            for attr in ("p0", "p1"):
+                flow = dynamic[attr].loc[losses.index, losses.columns]
+                set_from_frame(n, c, attr, flow + losses / 2)
 
     # recalculate injection
     ca = [
-- 
2.43.0


From b034aa7e93bea9149823a35af269a47a300f1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 24/71] fix: technology capacity limits without period or bus
 and for several component types

---
 pypsa/optimization/global_constraints.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index d63b650..a9f0dc5 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -43,7 +43,7 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
     ]
 
     for (carrier, sense, period), glcs_group in glcs.groupby(
-        ["carrier_attribute", "sense", "investment_period"]
+        ["carrier_attribute", "sense", "investment_period"], dropna=False
     ):
         period = None if isnan(period) else int(period)
         sign = "=" if sense == "==" else sense
@@ -77,14 +77,16 @@ def define_tech_capacity_expansion_limit(n: Network, sns: Sequence) -> None:
         if not lhs_per_bus_list:
             continue
 
-        lhs_per_bus = merge(lhs_per_bus_list)
+        lhs_per_bus = merge(lhs_per_bus_list, join="outer")
 
         for name, glc in glcs_group.iterrows():
             bus = glc.get("bus")
-            if bus is None:
+            if bus is None or pd.isna(bus) or bus == "":
                 lhs = lhs_per_bus.sum(busdim)
-            else:
+            elif str(bus) in lhs_per_bus.indexes[busdim]:
                 lhs = lhs_per_bus.sel(**{busdim: str(bus)}, drop=True)
+            else:
+                continue
 
             n.model.add_constraints(
                 lhs, sign, glc.constant, name=f"GlobalConstraint-{name}"
-- 
2.43.0


From d2a1f82b46e9e936024e90fdb6c44601b87eabe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 25/71] fix: growth limits for expired assets and several
 component types

---
 pypsa/optimization/global_constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index a9f0dc5..5032f57 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -220,7 +220,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
 
         active = pd.concat({p: n.get_active_assets(c, p) for p in periods}, axis=1)
         active = active.loc[limited_i].rename_axis(columns="periods").T
-        first_active = DataArray(active.cumsum() == 1)
+        first_active = DataArray((active.cumsum() == 1) & active)
         carriers = static.loc[limited_i, "carrier"].rename("Carrier")
 
         vars = m[var].sel({dim: limited_i}).where(first_active)
@@ -234,7 +234,7 @@ def define_growth_limit(n: Network, sns: pd.Index) -> None:
     if not lhs_list:
         return
 
-    lhs = merge(lhs_list)
+    lhs = merge(lhs_list, join="outer")
     rhs = max_absolute_growth.reindex_like(lhs.data)
 
     m.add_constraints(lhs, "<=", rhs, name="Carrier-growth_limit")
-- 
2.43.0


From cfdf588c3a7b279b906f205ceeb845b8317cafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 26/71] fix: time series of ramp limits of committable units

---
 pypsa/optimization/constraints.py | 36 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 1050442..bcd4699 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -166,8 +166,12 @@ def define_operational_constraints_for_committables(
     upper_p = max_pu * nominal
     min_up_time_set = n.static(c).min_up_time[com_i]
     min_down_time_set = n.static(c).min_down_time[com_i]
-    ramp_up_limit = nominal * n.static(c).ramp_limit_up[com_i].fillna(1)
-    ramp_down_limit = nominal * n.static(c).ramp_limit_down[com_i].fillna(1)
+    ramp_up_limit = nominal * DataArray(
+        get_as_dense(n, c, "ramp_limit_up", sns, com_i).fillna(1)
+    )
+    ramp_down_limit = nominal * DataArray(
+        get_as_dense(n, c, "ramp_limit_down", sns, com_i).fillna(1)
+    )
     ramp_start_up = nominal * n.static(c).ramp_limit_start_up[com_i]
     ramp_shut_down = nominal * n.static(c).ramp_limit_shut_down[com_i]
     up_time_before_set = n.static(c)["up_time_before"].reindex(com_i)
@@ -293,8 +297,8 @@ def define_operational_constraints_for_committables(
         lower_p_ce = lower_p.loc[:, cost_equal]
         ramp_shut_down_ce = ramp_shut_down.loc[cost_equal]
         ramp_start_up_ce = ramp_start_up.loc[cost_equal]
-        ramp_up_limit_ce = ramp_up_limit.loc[cost_equal]
-        ramp_down_limit_ce = ramp_down_limit.loc[cost_equal]
+        ramp_up_limit_ce = ramp_up_limit.loc[{com_i.name: cost_equal}]
+        ramp_down_limit_ce = ramp_down_limit.loc[{com_i.name: cost_equal}]
 
         lhs = (
             p_ce.shift(snapshot=1)
@@ -519,9 +523,11 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
     assets = n.static(c).reindex(com_i)
 
     # com up
-    if not assets.ramp_limit_up.isnull().all():
+    if not ramp_limit_up[com_i].isnull().all().all():
         limit_start = assets.eval("ramp_limit_start_up * p_nom").to_xarray()
-        limit_up = assets.eval("ramp_limit_up * p_nom").to_xarray()
+        limit_up = DataArray(
+            ramp_limit_up.reindex(active.index, columns=com_i) * assets.p_nom
+        )
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -536,17 +542,22 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         rhs = rhs_start.reindex(columns=com_i)
         if is_rolling_horizon:
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
-            rhs.loc[sns[0]] += (limit_up - limit_start) * status_start
+            limit_up_start = ramp_limit_up.loc[sns[0], com_i] * assets.p_nom
+            rhs.loc[sns[0]] += (limit_up_start - limit_start) * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_up.notnull()
+        mask = active.reindex(columns=com_i) & ramp_limit_up.notnull().reindex(
+            active.index, columns=com_i
+        )
         m.add_constraints(
             lhs_tuple, "<=", rhs, name=f"{c}-com-{attr}-ramp_limit_up", mask=mask
         )
 
     # com down
-    if not assets.ramp_limit_down.isnull().all():
+    if not ramp_limit_down[com_i].isnull().all().all():
         limit_shut = assets.eval("ramp_limit_shut_down * p_nom").to_xarray()
-        limit_down = assets.eval("ramp_limit_down * p_nom").to_xarray()
+        limit_down = DataArray(
+            ramp_limit_down.reindex(active.index, columns=com_i) * assets.p_nom
+        )
 
         status = m[f"{c}-status"].sel(snapshot=active.index)
         status_prev = m[f"{c}-status"].shift(snapshot=1).sel(snapshot=active.index)
@@ -563,8 +574,9 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
             rhs.loc[sns[0]] += -limit_shut * status_start
 
-        mask = active.reindex(columns=com_i) & assets.ramp_limit_down.notnull()
-
+        mask = active.reindex(columns=com_i) & ramp_limit_down.notnull().reindex(
+            active.index, columns=com_i
+        )
         m.add_constraints(
             lhs_tuple, ">=", rhs, name=f"{c}-com-{attr}-ramp_limit_down", mask=mask
         )
-- 
2.43.0


From b43f00c883d9f12847a369e2623ad55e29350f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:06 +0000
Subject: [PATCH 27/71] fix: initial status of committable units within the
 integrality tolerance

---
 pypsa/optimization/constraints.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index bcd4699..3e31ca8 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -184,6 +184,9 @@ def define_operational_constraints_for_committables(
         start_i = n.snapshots.get_loc(sns[0])
         # get generators which are online until the first regarded snapshot
         until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)
+        if not n._linearized_uc:
+            # solvers return binaries only up to their integrality tolerance
+            until_start_up = until_start_up.round()
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
         up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-- 
2.43.0


From 20e99b576892cfe69bb78c763eb49434bcc34042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 28/71] fix: storage which is not cyclic keeps its level
 between investment periods

---
 pypsa/optimization/constraints.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 3e31ca8..b82bef2 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -882,9 +882,8 @@ def define_storage_unit_constraints(n: Network, sns: pd.Index) -> None:
         # If multi-horizon optimizing, we update the previous_soc and the rhs
         # for all assets which are cyclid/non-cyclid per period.
         periods = soc.coords["period"]
-        per_period = (
-            assets.cyclic_state_of_charge_per_period.to_xarray()
-            | assets.state_of_charge_initial_per_period.to_xarray()
+        per_period = assets.state_of_charge_initial_per_period.to_xarray().where(
+            noncyclic_b, assets.cyclic_state_of_charge_per_period.to_xarray()
         )
 
         # We calculate the previous soc per period while cycling within a period
@@ -958,9 +957,8 @@ def define_store_constraints(n: Network, sns: pd.Index) -> None:
         # If multi-horizon optimizing, we update the previous_e and the rhs
         # for all assets which are cyclid/non-cyclid per period.
         periods = e.coords["period"]
-        per_period = (
-            assets.e_cyclic_per_period.to_xarray()
-            | assets.e_initial_per_period.to_xarray()
+        per_period = assets.e_initial_per_period.to_xarray().where(
+            noncyclic_b, assets.e_cyclic_per_period.to_xarray()
         )
 
         # We calculate the previous e per period while cycling within a period
-- 
2.43.0


From eaea9677a1b5ff5be7ec912b987aec6eccc9d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 29/71] fix: optimise networks whose passive branches are all
 inactive

---
 pypsa/optimization/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/optimize.py b/pypsa/optimization/optimize.py
index 0ae9430..ffe6278 100644
--- a/pypsa/optimization/optimize.py
+++ b/pypsa/optimization/optimize.py
@@ -518,7 +518,7 @@ def post_processing(n: Network) -> None:
     # TODO: if multi investment optimization, the network topology is not the necessarily the same,
     # i.e. one has to iterate over the periods in order to get the correct angles.
     # Determine_network_topology is not necessarily called (only if KVL was assigned)
-    if "obj" in n.sub_networks:
+    if "obj" in n.sub_networks and not n.sub_networks.empty:
         n.buses_t.v_ang = pd.concat(
             [v_ang_for_(sub) for sub in n.sub_networks.obj], axis=1
         ).reindex(columns=n.buses.index, fill_value=0.0)
-- 
2.43.0


From 31a22b1e43ffa3f1c736d0e64219dc3b413cee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 30/71] fix: rolling horizon keeps the initial storage levels
 of the network, applies standing losses between windows and survives failed
 windows

---
 pypsa/optimization/abstract.py | 55 +++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c4c6487..f2e9380 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -486,27 +486,48 @@ def optimize_with_rolling_horizon(
     if horizon <= overlap:
         raise ValueError("overlap must be smaller than horizon")
 
+    initial_levels = {
+        ("Store", "e"): n.stores.e_initial.copy(),
+        ("StorageUnit", "state_of_charge"): (
+            n.storage_units.state_of_charge_initial.copy()
+        ),
+    }
+    # number of snapshots up to the last one with a solution
+    solved = 0
+
     starting_points = range(0, len(snapshots), horizon - overlap)
-    for i, start in enumerate(starting_points):
-        end = min(len(snapshots), start + horizon)
-        sns = snapshots[start:end]
-        logger.info(
-            f"Optimizing network for snapshot horizon [{sns[0]}:{sns[-1]}] ({i + 1}/{len(starting_points)})."
-        )
+    try:
+        for i, start in enumerate(starting_points):
+            end = min(len(snapshots), start + horizon)
+            sns = snapshots[start:end]
+            logger.info(
+                f"Optimizing network for snapshot horizon [{sns[0]}:{sns[-1]}] ({i + 1}/{len(starting_points)})."
+            )
 
-        if i:
-            if not n.stores.empty:
-                n.stores.e_initial = n.stores_t.e.loc[snapshots[start - 1]]
-            if not n.storage_units.empty:
-                n.storage_units.state_of_charge_initial = (
-                    n.storage_units_t.state_of_charge.loc[snapshots[start - 1]]
+            # carry on from the last known levels, the initial level of an
+            # optimization is not subject to standing losses
+            if last := min(start, solved):
+                hours = n.snapshot_weightings.stores[sns[0]]
+                for (c, attr), levels in initial_levels.items():
+                    if not levels.empty:
+                        loss = n.get_switchable_as_dense(
+                            c, "standing_loss", sns[:1]
+                        ).iloc[0]
+                        n.static(c)[f"{attr}_initial"] = (1 - loss).pow(
+                            hours
+                        ) * n.dynamic(c)[attr].loc[snapshots[last - 1]]
+
+            status, condition = n.optimize(sns, **kwargs)  # type: ignore
+            if status == "ok":
+                solved = max(solved, end)
+            else:
+                logger.warning(
+                    f"Optimization failed with status {status} and condition {condition}"
                 )
+    finally:
+        for (c, attr), levels in initial_levels.items():
+            n.static(c)[f"{attr}_initial"] = levels
 
-        status, condition = n.optimize(sns, **kwargs)  # type: ignore
-        if status != "ok":
-            logger.warning(
-                f"Optimization failed with status {status} and condition {condition}"
-            )
     return n
 
 
-- 
2.43.0


From 7721c7e00239d71d0b33c38d5bd75cf6d8fd14fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 31/71] fix: units without a minimum up time are known to be up
 before a window

---
 pypsa/optimization/constraints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index b82bef2..56b2be3 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -190,7 +190,7 @@ def define_operational_constraints_for_committables(
         ref = range(1, len(until_start_up) + 1)
         up_time_before = until_start_up[until_start_up.cumsum().eq(ref, axis=0)].sum()
         up_time_before_set = up_time_before.clip(upper=min_up_time_set)
-        initially_up = up_time_before_set.astype(bool)
+        initially_up = up_time_before.astype(bool)
         # get number of snapshots for generators which are offline before the first regarded snapshot
         until_start_down = ~until_start_up.astype(bool)
         ref = range(1, len(until_start_down) + 1)
@@ -198,7 +198,7 @@ def define_operational_constraints_for_committables(
             until_start_down.cumsum().eq(ref, axis=0)
         ].sum()
         down_time_before_set = down_time_before.clip(upper=min_down_time_set)
-        initially_down = down_time_before_set.astype(bool)
+        initially_down = down_time_before.astype(bool)
 
     # lower dispatch level limit
     lhs_tuple = (1, p), (-lower_p, status)
-- 
2.43.0


From 0a997159a782d0d0f6807d34bb07e8175969361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 32/71] fix: ramp limits at the start of a window take the
 status up to the integrality tolerance

---
 pypsa/optimization/constraints.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 56b2be3..486a32b 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -545,6 +545,8 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         rhs = rhs_start.reindex(columns=com_i)
         if is_rolling_horizon:
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
+            if not n._linearized_uc:
+                status_start = status_start.round()
             limit_up_start = ramp_limit_up.loc[sns[0], com_i] * assets.p_nom
             rhs.loc[sns[0]] += (limit_up_start - limit_start) * status_start
 
@@ -575,6 +577,8 @@ def define_ramp_limit_constraints(n: Network, sns: pd.Index, c: str, attr: str)
         rhs = rhs_start.reindex(columns=com_i)
         if is_rolling_horizon:
             status_start = n.dynamic(c)["status"][com_i].iloc[start_i]
+            if not n._linearized_uc:
+                status_start = status_start.round()
             rhs.loc[sns[0]] += -limit_shut * status_start
 
         mask = active.reindex(columns=com_i) & ramp_limit_down.notnull().reindex(
-- 
2.43.0


From eb8fa1265a79752689c0c869c83d1319f73338bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 33/71] fix: global constraints ignore the initial levels of
 storage which is never active

---
 pypsa/optimization/global_constraints.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pypsa/optimization/global_constraints.py b/pypsa/optimization/global_constraints.py
index 5032f57..c5d1529 100644
--- a/pypsa/optimization/global_constraints.py
+++ b/pypsa/optimization/global_constraints.py
@@ -15,6 +15,7 @@ from linopy.expressions import merge
 from numpy import isnan
 from xarray import DataArray
 
+from pypsa.descriptors import get_activity_mask
 from pypsa.descriptors import get_switchable_as_dense as get_as_dense
 from pypsa.descriptors import nominal_attrs
 
@@ -293,6 +294,8 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
         # storage units
         cond = "carrier in @emissions.index and not cyclic_state_of_charge"
         sus = n.storage_units.query(cond)
+        # storage which is never active contributes nothing
+        sus = sus[get_activity_mask(n, "StorageUnit", sns[sns_sel], sus.index).any()]
         if not sus.empty:
             em_pu = sus.carrier.map(emissions)
             sus_i = sus.index
@@ -303,6 +306,7 @@ def define_primary_energy_limit(n: Network, sns: pd.Index) -> None:
 
         # stores
         stores = n.stores.query("carrier in @emissions.index and not e_cyclic")
+        stores = stores[get_activity_mask(n, "Store", sns[sns_sel], stores.index).any()]
         if not stores.empty:
             em_pu = stores.carrier.map(emissions)
             e = m["Store-e"].loc[sns[sns_sel], stores.index]
@@ -363,6 +367,8 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
             lhs.append(expr)
 
         sus = n.storage_units.query(cond)
+        # storage which is never active contributes nothing
+        sus = sus[get_activity_mask(n, "StorageUnit", snapshots, sus.index).any()]
         if not sus.empty:
             sus_i = sus.index
             soc = m["StorageUnit-state_of_charge"].loc[snapshots, sus_i]
@@ -372,6 +378,7 @@ def define_operational_limit(n: Network, sns: pd.Index) -> None:
 
         # stores
         stores = n.stores.query("carrier == @glc.carrier_attribute and not e_cyclic")
+        stores = stores[get_activity_mask(n, "Store", snapshots, stores.index).any()]
         if not stores.empty:
             e = m["Store-e"].loc[snapshots, stores.index]
             e = e.ffill("snapshot").isel(snapshot=-1)
-- 
2.43.0


From df9886a679485120bd37c84c28e7bf50399e8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:07 +0000
Subject: [PATCH 34/71] fix: standing losses apply to the initial level of
 storage as documented

---
 pypsa/optimization/abstract.py    | 13 ++++---------
 pypsa/optimization/constraints.py |  4 ++--
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index f2e9380..6057549 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -504,18 +504,13 @@ def optimize_with_rolling_horizon(
                 f"Optimizing network for snapshot horizon [{sns[0]}:{sns[-1]}] ({i + 1}/{len(starting_points)})."
             )
 
-            # carry on from the last known levels, the initial level of an
-            # optimization is not subject to standing losses
+            # carry on from the last known levels
             if last := min(start, solved):
-                hours = n.snapshot_weightings.stores[sns[0]]
                 for (c, attr), levels in initial_levels.items():
                     if not levels.empty:
-                        loss = n.get_switchable_as_dense(
-                            c, "standing_loss", sns[:1]
-                        ).iloc[0]
-                        n.static(c)[f"{attr}_initial"] = (1 - loss).pow(
-                            hours
-                        ) * n.dynamic(c)[attr].loc[snapshots[last - 1]]
+                        n.static(c)[f"{attr}_initial"] = n.dynamic(c)[attr].loc[
+                            snapshots[last - 1]
+                        ]
 
             status, condition = n.optimize(sns, **kwargs)  # type: ignore
             if status == "ok":
diff --git a/pypsa/optimization/constraints.py b/pypsa/optimization/constraints.py
index 486a32b..d296ecf 100644
--- a/pypsa/optimization/constraints.py
+++ b/pypsa/optimization/constraints.py
@@ -915,7 +915,7 @@ def define_storage_unit_constraints(n: Network, sns: pd.Index) -> None:
             per_period, include_previous_soc
         )
     lhs += [(eff_stand, previous_soc)]
-    rhs = rhs.where(include_previous_soc, rhs - soc_init)
+    rhs = rhs.where(include_previous_soc, rhs - DataArray(eff_stand) * soc_init)
     m.add_constraints(lhs, "=", rhs, name=f"{c}-energy_balance", mask=active)
 
 
@@ -987,7 +987,7 @@ def define_store_constraints(n: Network, sns: pd.Index) -> None:
         include_previous_e = include_previous_e_pp.where(per_period, include_previous_e)
 
     lhs += [(eff_stand, previous_e)]
-    rhs = -e_init.where(~include_previous_e, 0)
+    rhs = -(DataArray(eff_stand) * e_init).where(~include_previous_e, 0)
 
     m.add_constraints(lhs, "=", rhs, name=f"{c}-energy_balance", mask=active)
 
-- 
2.43.0


From 3ab78c3cb04f92386f1ce285b2ba7a1d9bcf338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 35/71] fix: operational expenditure includes links and uses
 the weightings of the objective

---
 pypsa/statistics/expressions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pypsa/statistics/expressions.py b/pypsa/statistics/expressions.py
index 5951ac5..b640ead 100644
--- a/pypsa/statistics/expressions.py
+++ b/pypsa/statistics/expressions.py
@@ -1144,7 +1144,7 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
         @pass_empty_series_if_keyerror
         def func(n: Network, c: str, port: str) -> pd.Series:
             result = []
-            weights = get_weightings(n, c)
+            weights = n.snapshot_weightings["objective"]
             weights_one = pd.Series(1.0, index=weights.index)
             com_i = n.get_committable_i(c)
 
@@ -1157,6 +1157,8 @@ class StatisticsAccessor(AbstractStatisticsAccessor):
                 if cost_type in cost_types_ and cost_type in n.static(c):
                     attr = lookup.query(cost_type).loc[c].index.item()
                     cost = n.get_switchable_as_dense(c, cost_type)
+                    if c in n.branch_components:
+                        attr = "p0"
                     p = n.dynamic(c)[attr]
                     var = p * p if cost_type == "marginal_cost_quadratic" else p
                     opex = var * cost
-- 
2.43.0


From 7b54802c5ed1efe7ebf5074919a4e8f4de6df975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 36/71] fix: iterative transmission expansion restores inputs
 when it fails and starts from the initial capacities

The first iteration related impedances to the capacities of an earlier
optimization instead of the nominal ones, fixed lines and links were
discretised and never restored, and the carriers of lines were overwritten.
---
 pypsa/optimization/abstract.py | 46 ++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 6057549..c71deb8 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -8,7 +8,8 @@ from __future__ import annotations
 
 import gc
 import logging
-from collections.abc import Sequence
+from collections.abc import Callable, Sequence
+from functools import wraps
 from itertools import product
 from typing import TYPE_CHECKING, Any
 
@@ -128,6 +129,30 @@ def discretized_capacity(
             return block_capacity
 
 
+def restore_branches_on_failure(func: Callable) -> Callable:
+    """
+    Decorator for functions which change the nominal capacities and impedances
+    of branches between several optimizations. All are set back to the original
+    values unless the function succeeds.
+    """
+
+    @wraps(func)
+    def wrapper(n: Network, *args: Any, **kwargs: Any) -> tuple[str, str]:
+        lines = n.lines[["s_nom", "s_nom_extendable", "x", "r", "num_parallel"]].copy()
+        links = n.links[["p_nom", "p_nom_extendable"]].copy()
+        status = None
+        try:
+            status, condition = func(n, *args, **kwargs)
+        finally:
+            if status != "ok":
+                n.lines[lines.columns] = lines
+                n.links[links.columns] = links
+        return status, condition
+
+    return wrapper
+
+
+@restore_branches_on_failure
 def optimize_transmission_expansion_iteratively(
     n: Network,
     snapshots: Sequence | None = None,
@@ -184,7 +209,7 @@ def optimize_transmission_expansion_iteratively(
     **kwargs
         Keyword arguments of the `n.optimize` function which runs at each iteration
     """
-    n.lines["carrier"] = n.lines.bus0.map(n.buses.carrier)
+    lines_carrier = n.lines.bus0.map(n.buses.carrier)
     ext_i = n.get_extendable_i("Line").copy()
     typed_i = n.lines.query('type != ""').index
     ext_untyped_i = ext_i.difference(typed_i)
@@ -199,7 +224,7 @@ def optimize_transmission_expansion_iteratively(
     def update_line_params(n: Network, s_nom_prev: float | pd.Series) -> None:
         factor = n.lines.s_nom_opt / s_nom_prev
         for attr, carrier in (("x", "AC"), ("r", "DC")):
-            ln_i = n.lines.query("carrier == @carrier").index.intersection(
+            ln_i = lines_carrier.index[lines_carrier == carrier].intersection(
                 ext_untyped_i
             )
             n.lines.loc[ln_i, attr] /= factor[ln_i]
@@ -242,8 +267,8 @@ def optimize_transmission_expansion_iteratively(
         line_threshold = line_threshold or 0.3
         link_threshold = link_threshold or {}
 
-        if line_unit_size:
-            n.lines["s_nom"] = n.lines.apply(
+        if line_unit_size and not ext_i.empty:
+            n.lines.loc[ext_i, "s_nom"] = n.lines.loc[ext_i].apply(
                 lambda row: discretized_capacity(
                     nom_opt=row["s_nom_opt"],
                     nom_max=row["s_nom_max"],
@@ -256,7 +281,9 @@ def optimize_transmission_expansion_iteratively(
 
         if link_unit_size:
             for carrier in link_unit_size.keys() & n.links.carrier.unique():
-                idx = n.links.carrier == carrier
+                idx = ext_links_to_fix_b & (n.links.carrier == carrier)
+                if not idx.any():
+                    continue
                 n.links.loc[idx, "p_nom"] = n.links.loc[idx].apply(
                     lambda row: discretized_capacity(
                         nom_opt=row["p_nom_opt"],
@@ -285,7 +312,9 @@ def optimize_transmission_expansion_iteratively(
             )
             break
 
-        s_nom_prev = n.lines.s_nom_opt.copy() if iteration else n.lines.s_nom.copy()
+        s_nom_prev = (
+            n.lines.s_nom_opt.copy() if iteration > 1 else n.lines.s_nom.copy()
+        )
         status, termination_condition = n.optimize(snapshots, **kwargs)  # type: ignore
         if status != "ok":
             msg = (
@@ -341,6 +370,9 @@ def optimize_transmission_expansion_iteratively(
     n.links.loc[ext_links_to_fix_b, "p_nom"] = p_nom_orig.loc[ext_links_to_fix_b]
     n.links.loc[ext_links_to_fix_b, "p_nom_extendable"] = True
 
+    if status != "ok":
+        return status, condition
+
     ## add costs of additional infrastructure to objective value of last iteration
     obj_links = (
         n.links[ext_links_to_fix_b].eval("capital_cost * (p_nom_opt - p_nom_min)").sum()
-- 
2.43.0


From 2cfa21fc7d8dad79ba5e232d77d4dc90111bf822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 37/71] fix: power flow after optimization keeps set points and
 controls, and works without passive branches

---
 pypsa/optimization/abstract.py | 70 +++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 26 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index c71deb8..0810859 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -754,32 +754,50 @@ def optimize_and_run_non_linear_powerflow(
         )
         return dict(status=status, terminantion_condition=condition)
 
-    for c in n.one_port_components:
-        n.dynamic(c)["p_set"] = n.dynamic(c)["p"]
-    for c in {"Link"}:
-        n.dynamic(c)["p_set"] = n.dynamic(c)["p0"]
-
-    n.generators.control = "PV"
-    for sub_network in n.sub_networks.obj:
-        n.generators.loc[sub_network.slack_generator, "control"] = "Slack"
-    # Need some PQ buses so that Jacobian doesn't break
-    for sub_network in n.sub_networks.obj:
-        generators = sub_network.generators_i()
-        other_generators = generators.difference([sub_network.slack_generator])
-        if not other_generators.empty:
-            n.generators.loc[other_generators[0], "control"] = "PQ"
-
-    # Step 2: Perform non-linear power flow for all snapshots
-    logger.info("Running non-linear power flow iteratively...")
+    # set points and controls are inputs, change them for the power flow only
+    p_set = {
+        c: n.dynamic(c).get("p_set") for c in [*n.one_port_components, "Link"]
+    }
+    control = n.generators.control.copy()
 
-    # Run non-linear power flow
-    res = n.pf(
-        snapshots=snapshots,
-        skip_pre=skip_pre,
-        x_tol=x_tol,
-        use_seed=use_seed,
-        distribute_slack=distribute_slack,
-        slack_weights=slack_weights,
-    )
+    try:
+        for c in n.one_port_components:
+            n.dynamic(c)["p_set"] = n.dynamic(c)["p"]
+        for c in {"Link"}:
+            n.dynamic(c)["p_set"] = n.dynamic(c)["p0"]
+
+        # networks without passive branches have no sub-networks yet
+        n.determine_network_topology()
+
+        n.generators.control = "PV"
+        for sub_network in n.sub_networks.obj:
+            if sub_network.slack_generator is not None:
+                n.generators.loc[sub_network.slack_generator, "control"] = "Slack"
+        # Need some PQ buses so that Jacobian doesn't break
+        for sub_network in n.sub_networks.obj:
+            generators = sub_network.generators_i()
+            other_generators = generators.difference([sub_network.slack_generator])
+            if not other_generators.empty:
+                n.generators.loc[other_generators[0], "control"] = "PQ"
+
+        # Step 2: Perform non-linear power flow for all snapshots
+        logger.info("Running non-linear power flow iteratively...")
+
+        # Run non-linear power flow
+        res = n.pf(
+            snapshots=snapshots,
+            skip_pre=skip_pre,
+            x_tol=x_tol,
+            use_seed=use_seed,
+            distribute_slack=distribute_slack,
+            slack_weights=slack_weights,
+        )
+    finally:
+        n.generators["control"] = control
+        for c, df in p_set.items():
+            if df is None:
+                n.dynamic(c).pop("p_set", None)
+            else:
+                n.dynamic(c)["p_set"] = df
 
     return dict(status=status, terminantion_condition=condition, **res)
-- 
2.43.0


From 2096f1ea5f01a97b1523dbb99f84415db9bc59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 38/71] fix: security-constrained optimization of networks with
 inactive branches

---
 pypsa/optimization/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 0810859..05f52ff 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -448,7 +448,7 @@ def optimize_security_constrained(
     )
 
     for sub_network in n.sub_networks.obj:
-        branches_i = sub_network.branches_i()
+        branches_i = sub_network.branches_i(active_only=True)
         outages = branches_i.intersection(branch_outages)
 
         if outages.empty:
-- 
2.43.0


From 6540e0cc89aaf0b58b70d37b52bb9988b10f0f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:27 +0000
Subject: [PATCH 39/71] fix: security-constrained optimization of several
 sub-networks with fixed and extendable branches

---
 pypsa/optimization/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 05f52ff..2a8238a 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -478,6 +478,8 @@ def optimize_security_constrained(
                 con = m.constraints[constraint]  # use this as a template
                 # idx now contains fixed/extendable for the sub-network
                 idx = con.lhs.indexes[coord].intersection(added_flow.indexes[coord])
+                if idx.empty:
+                    continue
                 sel = {coord: idx}
                 lhs = con.lhs.sel(sel) + added_flow.sel(sel)
                 name = constraint + f"-security-for-{c_outage_}-in-{sub_network}"
-- 
2.43.0


From b1420426679c78356b425e46c4fc8ed54a7f7cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 40/71] fix: adjacency of networks where all branches of the
 last component type are inactive

---
 pypsa/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index a3c85f2..74a8e1f 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -145,11 +145,11 @@ def adjacency_matrix(
         active = c.get_active_assets(investment_period)
         sel = c.static[active].index
 
-        no_branches = len(c.static.loc[sel])
+        no_branches += len(sel)
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
         weight_vals.append(
-            np.ones(no_branches) if weights is None else weights[c.name][sel].values
+            np.ones(len(sel)) if weights is None else weights[c.name][sel].values
         )
 
     if no_branches == 0:
-- 
2.43.0


From f05d36e7a61f5cc4ef6f1782f6d3ada404666396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 41/71] fix: power flow of sub-networks where all branches of
 one component type are inactive

---
 pypsa/pf.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index ecee47d..d208d92 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -733,13 +733,13 @@ def sub_network_pf(
 
     s0 = pd.DataFrame(v0 * np.conj(i0), columns=branches_i, index=sns)
     s1 = pd.DataFrame(v1 * np.conj(i1), columns=branches_i, index=sns)
-    for c in sub_network.iterate_components(n.passive_branch_components):
-        s0t = s0.loc[:, c.name]
-        s1t = s1.loc[:, c.name]
-        n.dynamic(c.name).p0.loc[sns, s0t.columns] = s0t.values.real
-        n.dynamic(c.name).q0.loc[sns, s0t.columns] = s0t.values.imag
-        n.dynamic(c.name).p1.loc[sns, s1t.columns] = s1t.values.real
-        n.dynamic(c.name).q1.loc[sns, s1t.columns] = s1t.values.imag
+    for c_name in branches_i.unique(0):
+        s0t = s0.loc[:, c_name]
+        s1t = s1.loc[:, c_name]
+        n.dynamic(c_name).p0.loc[sns, s0t.columns] = s0t.values.real
+        n.dynamic(c_name).q0.loc[sns, s0t.columns] = s0t.values.imag
+        n.dynamic(c_name).p1.loc[sns, s1t.columns] = s1t.values.real
+        n.dynamic(c_name).q1.loc[sns, s1t.columns] = s1t.values.imag
 
     s_calc = np.empty((len(sns), len(buses_o)), dtype=complex)
     for i in np.arange(len(sns)):
@@ -1513,10 +1513,10 @@ def sub_network_lpf(
             + sub_network.p_branch_shift
         )
 
-        for c in sub_network.iterate_components(n.passive_branch_components):
-            f = flows.loc[:, c.name]
-            n.dynamic(c.name).p0.loc[sns, f.columns] = f
-            n.dynamic(c.name).p1.loc[sns, f.columns] = -f
+        for c_name in branches_i.unique(0):
+            f = flows.loc[:, c_name]
+            n.dynamic(c_name).p0.loc[sns, f.columns] = f
+            n.dynamic(c_name).p1.loc[sns, f.columns] = -f
 
     if n.sub_networks.at[sub_network.name, "carrier"] == "DC":
         n.buses_t.v_mag_pu.loc[sns, buses_o] = 1 + v_diff
-- 
2.43.0


From 38857c9ab64a93965de7b93ec9439e4c0b71546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 42/71] fix: contingency analysis with several sub-networks,
 inactive branches and default snapshots

---
 pypsa/contingency.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pypsa/contingency.py b/pypsa/contingency.py
index 1d4ddea..07a558e 100644
--- a/pypsa/contingency.py
+++ b/pypsa/contingency.py
@@ -13,7 +13,7 @@ import pandas as pd
 from numpy import r_
 from scipy.sparse import csr_matrix
 
-from pypsa.common import deprecated_common_kwargs
+from pypsa.common import as_index, deprecated_common_kwargs
 from pypsa.pf import calculate_PTDF
 
 if TYPE_CHECKING:
@@ -89,22 +89,19 @@ def network_lpf_contingency(
         num_passive_branch x num_branch_outages DataFrame of new power flows
 
     """
-    if snapshots is None:
-        snapshots = n.snapshots
+    snapshots = as_index(n, snapshots, "snapshots")
 
-    if isinstance(snapshots, Sequence):
+    if len(snapshots) > 1:
         logger.warning(
             "Apologies LPF contingency, this only works for single snapshots at the moment, taking the first snapshot."
         )
-        snapshot = snapshots[0]
-    else:
-        snapshot = snapshots
+    snapshot = snapshots[0]
 
-    n.lpf(snapshot)
+    n.lpf(snapshots[:1])
 
     # Store the flows from the base case
 
-    passive_branches = n.passive_branches()
+    passive_branches = n.passive_branches().query("active")
 
     if branch_outages is None:
         branch_outages = passive_branches.index
@@ -115,8 +112,9 @@ def network_lpf_contingency(
     p0 = p0_base.to_frame("base")
 
     for sub_network in n.sub_networks.obj:
-        sub_network._branches = sub_network.branches()
-        sub_network.calculate_BODF()
+        sub_network._branches = sub_network.branches().query("active")
+        if not sub_network._branches.empty:
+            sub_network.calculate_BODF()
 
     for branch in branch_outages:
         if not isinstance(branch, tuple):
@@ -126,8 +124,12 @@ def network_lpf_contingency(
         sub_network = n.sub_networks.obj[passive_branches.sub_network[branch]]
 
         branch_i = sub_network._branches.index.get_loc(branch)
-        p0_new = p0_base + pd.Series(
-            sub_network.BODF[:, branch_i] * p0_base[branch], sub_network._branches.index
+        p0_new = p0_base.add(
+            pd.Series(
+                sub_network.BODF[:, branch_i] * p0_base[branch],
+                sub_network._branches.index,
+            ),
+            fill_value=0,
         )
         p0_new.name = branch
 
-- 
2.43.0


From 432ea355a6f821273886f47adbbb4f2825e5663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 43/71] fix: tracked iterations of the transmission expansion
 can be repeated on a network

---
 pypsa/optimization/abstract.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 2a8238a..1ae3922 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -247,9 +247,7 @@ def optimize_transmission_expansion_iteratively(
         setattr(n, f"status_{iteration}", status)
         setattr(n, f"objective_{iteration}", n.objective)
         n.iteration = iteration
-        n.global_constraints = n.global_constraints.rename(
-            columns={"mu": f"mu_{iteration}"}
-        )
+        n.global_constraints[f"mu_{iteration}"] = n.global_constraints["mu"]
 
     def discretize_branch_components(
         n: Network,
-- 
2.43.0


From 01d104b8b0285ab1830b68280553228cc60044c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:42 +0000
Subject: [PATCH 44/71] fix: security-constrained optimization accepts outages
 as MultiIndex and ignores those which split a sub-network

---
 pypsa/optimization/abstract.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pypsa/optimization/abstract.py b/pypsa/optimization/abstract.py
index 1ae3922..60088a5 100644
--- a/pypsa/optimization/abstract.py
+++ b/pypsa/optimization/abstract.py
@@ -423,7 +423,9 @@ def optimize_security_constrained(
 
     if branch_outages is None:
         branch_outages = all_passive_branches
-    elif isinstance(branch_outages, (list | pd.Index)):
+    elif isinstance(branch_outages, (list | pd.Index)) and not isinstance(
+        branch_outages, pd.MultiIndex
+    ):
         branch_outages = pd.MultiIndex.from_product([("Line",), branch_outages])
 
         if diff := set(branch_outages) - set(all_passive_branches):
@@ -453,6 +455,16 @@ def optimize_security_constrained(
             continue
 
         sub_network.calculate_BODF()
+        # without these branches the sub-network falls apart and the BODF is singular
+        is_bridge = np.isclose(np.diag(sub_network.PTDF * sub_network.K), 1)
+        if not (bridges := outages.intersection(branches_i[is_bridge])).empty:
+            logger.warning(
+                f"The outages of {list(bridges)} split sub-network {sub_network.name} "
+                "and are ignored."
+            )
+            outages = outages.difference(bridges, sort=False)
+            if outages.empty:
+                continue
         BODF = pd.DataFrame(sub_network.BODF, index=branches_i, columns=branches_i)[
             outages
         ]
-- 
2.43.0


From e1576314360c3b971aae033766979bf20e1c13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 45/71] fix: reject dictionaries as attribute values in add

---
 pypsa/networks.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 63f9386..2398f91 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1246,6 +1246,13 @@ class Network:
             raise ValueError(msg)
 
         for k, v in kwargs.items():
+            if isinstance(v, dict):
+                msg = (
+                    "Dictionaries are not supported as attribute values. Please use "
+                    "pandas.Series or pandas.DataFrame instead."
+                )
+                raise NotImplementedError(msg)
+
             # If index/ columnes are passed (pd.DataFrame or pd.Series)
             # - cast names index to string and add suffix
             # - check if passed index/ columns align
@@ -1309,13 +1316,6 @@ class Network:
                     )
                     raise ValueError(msg)
 
-            if isinstance(v, dict):
-                msg = (
-                    "Dictionaries are not supported as attribute values. Please use "
-                    "pandas.Series or pandas.DataFrame instead."
-                )
-                raise NotImplementedError(msg)
-
             # Handle addition of single component
             if single_component:
                 # Read 1-dim data as time-varying attribute
-- 
2.43.0


From f664dbc82f82bd3fbdc1a50ea8bfef721bff8830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 46/71] fix: adding series to already existing components which
 are not overwritten

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 2398f91..025f1ad 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1344,10 +1344,14 @@ class Network:
             static_df = pd.DataFrame(static, index=names)
         else:
             static_df = pd.DataFrame(index=names)
+        existing = names.intersection(self.static(c.name).index)
         _import_components_from_df(self, static_df, c.name, overwrite=overwrite)
 
         # Load time-varying attributes as components
         for k, v in series.items():
+            if not overwrite:
+                # Existing components are ignored
+                v = v.drop(columns=existing)
             self._import_series_from_df(v, c.name, k, overwrite=overwrite)
 
         return names
-- 
2.43.0


From 47b37c82b20b164fb4e98e3e6baa849031dcc9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 47/71] fix: overwriting components replaces their time series
 as well

---
 pypsa/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pypsa/io.py b/pypsa/io.py
index 666f39e..7539e01 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1521,6 +1521,11 @@ def _import_components_from_df(
             new_static = new_static.drop(duplicated_components)
         else:
             old_static = old_static.drop(duplicated_components)
+            # Time series of the previous components would override new static values
+            for k, v in n.dynamic(cls_name).items():
+                n.dynamic(cls_name)[k] = v.drop(
+                    columns=v.columns.intersection(duplicated_components)
+                )
 
     # Concatenate to new dataframe
     if not old_static.empty:
-- 
2.43.0


From 92800ad26d586d0f8d34a8b814e3004c0f73d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 48/71] fix: custom time series of several components added one
 after another

---
 pypsa/io.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index 7539e01..7587fbb 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1605,8 +1605,16 @@ def _import_series_from_df(
     # Add all unknown attributes to the dataframe without any checks
     expected_attrs = attrs[lambda ds: ds.type.str.contains("series")].index
     if attr not in expected_attrs:
-        if overwrite or attr not in dynamic:
+        if attr not in dynamic:
             dynamic[attr] = df.copy()
+        elif not df.columns.empty:
+            # Keep the series of all other components
+            other = dynamic[attr].drop(
+                columns=dynamic[attr].columns.intersection(df.columns)
+            )
+            dynamic[attr] = pd.concat([other, df], axis=1)
+            dynamic[attr].columns.name = cls_name
+            dynamic[attr].index.name = "snapshot"
         return
 
     # Check if any snapshots are missing
-- 
2.43.0


From 59e262d487872544b871ebd2b530ce1d18a51f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 49/71] fix: rejected links do not leave additional ports
 behind

---
 pypsa/descriptors.py | 38 +++++++++++++++++++++++++++-----------
 pypsa/io.py          | 16 ++++++++++++----
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/pypsa/descriptors.py b/pypsa/descriptors.py
index 73d00fd..1f49c5c 100644
--- a/pypsa/descriptors.py
+++ b/pypsa/descriptors.py
@@ -418,6 +418,28 @@ def update_linkports_doc_changes(s: Any, i: int, j: str) -> Any:
     return s.replace(j, str(i)).replace("required", "optional")
 
 
+def _linkport_attrs(attrs: pd.DataFrame, ports: Iterable[str]) -> pd.DataFrame:
+    """
+    Get the attributes of links with additional ports.
+
+    Parameters
+    ----------
+    attrs : pd.DataFrame
+        Attributes of links, which are not changed.
+    ports : Iterable[str]
+        Additional ports.
+    """
+    attrs = attrs.copy()
+    for i, attr in product(ports, ["bus", "efficiency", "p"]):
+        target = f"{attr}{i}"
+        if target not in attrs.index:
+            base_attr = attr + ("1" if attr != "efficiency" else "")
+            attrs.loc[target] = attrs.loc[base_attr].apply(
+                update_linkports_doc_changes, args=("1", i)
+            )
+    return attrs
+
+
 @deprecated_common_kwargs
 def update_linkports_component_attrs(
     n: Network, where: Iterable[str] | None = None
@@ -438,21 +460,15 @@ def update_linkports_component_attrs(
     ports = additional_linkports(n, where)
     ports.sort(reverse=True)
     c = "Link"
-    n_attrs = len(n.components[c]["attrs"])
+    attrs = n.components[c]["attrs"]
+    n_attrs = len(attrs)
+    new_attrs = _linkport_attrs(attrs, ports)
 
     for i, attr in product(ports, ["bus", "efficiency", "p"]):
         target = f"{attr}{i}"
-        if target in n.components[c]["attrs"].index:
+        if target in attrs.index:
             continue
-        j = "1" if attr != "efficiency" else ""
-        base_attr = attr + j
-        base_attr_index = n.components[c]["attrs"].index.get_loc(base_attr)
-        n.components[c]["attrs"].index.insert(base_attr_index + 1, target)
-        n.components[c]["attrs"].loc[target] = (
-            n.components[c]["attrs"]
-            .loc[attr + j]
-            .apply(update_linkports_doc_changes, args=("1", i))
-        )
+        attrs.loc[target] = new_attrs.loc[target]
         # Also update container for varying attributes
         if attr in ["efficiency", "p"] and target not in n.dynamic(c).keys():
             df = pd.DataFrame(index=n.snapshots, columns=[], dtype=float)
diff --git a/pypsa/io.py b/pypsa/io.py
index 7587fbb..f9728b8 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -28,7 +28,11 @@ from pandas.api.types import is_numeric_dtype
 from pyproj import CRS
 
 from pypsa.common import check_optional_dependency, deprecated_common_kwargs
-from pypsa.descriptors import update_linkports_component_attrs
+from pypsa.descriptors import (
+    _linkport_attrs,
+    additional_linkports,
+    update_linkports_component_attrs,
+)
 
 try:
     from cloudpathlib import AnyPath as Path
@@ -1453,10 +1457,9 @@ def _import_components_from_df(
     cls_name : string
         Name of class of component, e.g. ``"Line", "Bus", "Generator", "StorageUnit"``
     """
-    if cls_name == "Link":
-        update_linkports_component_attrs(n, where=df)
-
     attrs = n.components[cls_name]["attrs"]
+    if cls_name == "Link":
+        attrs = _linkport_attrs(attrs, additional_linkports(n, where=df))
 
     static_attrs = attrs[attrs.static].drop("name")
     non_static_attrs = attrs[~attrs.static]
@@ -1488,6 +1491,11 @@ def _import_components_from_df(
                 else:
                     df[k] = df[k].astype(static_attrs.at[k, "typ"])
 
+    # The data is valid, the network can be changed from here on
+    if cls_name == "Link":
+        update_linkports_component_attrs(n, where=df)
+        attrs = n.components[cls_name]["attrs"]
+
     # check all the buses are well-defined
     # TODO use func from consistency checks
     for attr in [attr for attr in df if attr.startswith("bus")]:
-- 
2.43.0


From d95d08cd824c3c5511cb9c6f80c8430a784fc8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 50/71] fix: reject renaming components to names which are
 already used

---
 pypsa/components/abstract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pypsa/components/abstract.py b/pypsa/components/abstract.py
index 044ba4c..f1000a7 100644
--- a/pypsa/components/abstract.py
+++ b/pypsa/components/abstract.py
@@ -714,6 +714,9 @@ class Components(ComponentsData, ABC):
         if not all(isinstance(v, str) for v in kwargs.values()):
             msg = "New names must be strings."
             raise ValueError(msg)
+        if not self.static.index.map(lambda name: kwargs.get(name, name)).is_unique:
+            msg = f"Names for {self.name} must be unique."
+            raise ValueError(msg)
 
         # Rename component name definitions
         self.static = self.static.rename(index=kwargs)
-- 
2.43.0


From 1efcf41d908d6e0829698c277819699634a6dc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:45 +0000
Subject: [PATCH 51/71] fix: copy snapshots of some investment periods only

---
 pypsa/networks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 025f1ad..3ccb12b 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1522,6 +1522,10 @@ class Network:
 
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
+        if investment_periods is None and isinstance(snapshots_, pd.MultiIndex):
+            investment_periods = self.investment_periods.intersection(
+                snapshots_.unique(level=0)
+            )
         investment_periods_ = as_index(self, investment_periods, "investment_periods")
 
         # Deprecation warnings
-- 
2.43.0


From 6d6602025bca561103897fbbbda7541cf957670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 52/71] fix: slices select snapshots by label and keep the
 weightings of investment periods

---
 pypsa/networks.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 3ccb12b..402cd24 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1665,7 +1665,11 @@ class Network:
             )
             n.add(c, static.index, **static)
 
-        n.set_snapshots(self.snapshots[time_i])
+        # Select snapshots by label or mask, but keep all index levels
+        positions = pd.Series(range(len(self.snapshots)), index=self.snapshots)
+        snapshots = self.snapshots[np.atleast_1d(positions.loc[time_i])]
+
+        n.set_snapshots(snapshots)
         for c in self.all_components:
             i = n.static(c).index
             try:
@@ -1674,7 +1678,7 @@ class Network:
 
                 for k in dynamic:
                     ndynamic[k] = dynamic[k].loc[
-                        time_i, i.intersection(dynamic[k].columns)
+                        snapshots, i.intersection(dynamic[k].columns)
                     ]
             except AttributeError:
                 pass
@@ -1682,7 +1686,12 @@ class Network:
         # catch all remaining attributes of network
         n.name = self.name
 
-        n.snapshot_weightings = self.snapshot_weightings.loc[time_i]
+        n.snapshot_weightings = self.snapshot_weightings.loc[snapshots]
+
+        period_weightings = self.investment_period_weightings
+        if n.has_periods and n.periods.isin(period_weightings.index).all():
+            n.set_investment_periods(n.periods)
+            n.investment_period_weightings = period_weightings.loc[n.periods]
 
         return n
 
-- 
2.43.0


From 39c4cdcd8dc79dede8acbc5bc122c74123fb46fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 53/71] fix: move from snapshots with investment periods to
 datetime snapshots

---
 pypsa/networks.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 402cd24..268b6ad 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -745,9 +745,17 @@ class Network:
         if len(sns) == 0:
             raise ValueError("Snapshots must not be empty.")
 
+        weightings = self.snapshot_weightings
+        # Drop the period level when moving to snapshots without investment periods
+        flatten = isinstance(weightings.index, pd.MultiIndex) and not isinstance(
+            sns, pd.MultiIndex
+        )
+        if flatten:
+            weightings = weightings.iloc[:0].reset_index(drop=True)
+
         self._snapshots = sns
 
-        self.snapshot_weightings = self.snapshot_weightings.reindex(
+        self.snapshot_weightings = weightings.reindex(
             self._snapshots, fill_value=default_snapshot_weightings
         )
 
@@ -772,7 +780,13 @@ class Network:
             attrs = self.components[component]["attrs"]
 
             for k in dynamic.keys():
-                if dynamic[k].empty:  # avoid expensive reindex operation
+                if flatten and not dynamic[k].empty:
+                    dynamic[k] = dynamic[k].iloc[:0].reset_index(drop=True)
+                    dynamic[k] = dynamic[k].reindex(
+                        self._snapshots,
+                        fill_value=attrs.default[attrs.varying].get(k, np.nan),
+                    )
+                elif dynamic[k].empty:  # avoid expensive reindex operation
                     dynamic[k].index = self._snapshots
                 elif k in attrs.default[attrs.varying]:
                     if isinstance(dynamic[k].index, pd.MultiIndex):
-- 
2.43.0


From b409fb2c078d84314291878001f7e712614cfe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 54/71] fix: add components whose names end with the suffix

---
 pypsa/networks.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 268b6ad..04ccf64 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1276,20 +1276,16 @@ class Network:
                     raise ValueError(msg.format(f"Series {k}", "network snapshots"))
             elif isinstance(v, pd.Series):
                 # Cast names index to string + suffix
-                v = v.rename(
-                    index=lambda s: str(s)
-                    if str(s).endswith(suffix)
-                    else str(s) + suffix
-                )
+                v = v.rename(index=str)
+                if not v.index.equals(names):
+                    v = v.rename(index=lambda s: s + suffix)
                 if not v.index.equals(names):
                     raise ValueError(msg.format(f"Series {k}", names_str))
             if isinstance(v, pd.DataFrame):
                 # Cast names columns to string + suffix
-                v = v.rename(
-                    columns=lambda s: str(s)
-                    if str(s).endswith(suffix)
-                    else str(s) + suffix
-                )
+                v = v.rename(columns=str)
+                if not v.columns.equals(names):
+                    v = v.rename(columns=lambda s: s + suffix)
                 if not v.index.equals(self.snapshots):
                     raise ValueError(msg.format(f"DataFrame {k}", "network snapshots"))
                 if not v.columns.equals(names):
-- 
2.43.0


From 288676f70f663eb821c5e35ee3468d88a5a89af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 55/71] fix: merge networks with equal snapshot weightings of
 different types

---
 pypsa/io.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pypsa/io.py b/pypsa/io.py
index f9728b8..13078d9 100644
--- a/pypsa/io.py
+++ b/pypsa/io.py
@@ -1700,16 +1700,15 @@ def merge(
         if not snapshots_aligned:
             msg = "Snapshots do not agree, cannot merge networks."
             raise ValueError(msg)
-        weightings_aligned = n.snapshot_weightings.equals(other.snapshot_weightings)
+        # Weightings which have not been changed yet are integers
+        weightings = n.snapshot_weightings.astype(float)
+        other_weightings = other.snapshot_weightings.astype(float)
+        weightings_aligned = weightings.equals(other_weightings)
         if not weightings_aligned:
             # Check if only index order is different
             # TODO fix with #1128
-            if n.snapshot_weightings.reindex(
-                sorted(n.snapshot_weightings.columns), axis=1
-            ).equals(
-                other.snapshot_weightings.reindex(
-                    sorted(other.snapshot_weightings.columns), axis=1
-                )
+            if weightings.reindex(sorted(weightings.columns), axis=1).equals(
+                other_weightings.reindex(sorted(other_weightings.columns), axis=1)
             ):
                 weightings_aligned = True
             else:
-- 
2.43.0


From 75ddee7564c1b802be6dedc3701039e4283c8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 56/71] fix: inactive links carry no power in the power flow

---
 pypsa/pf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index d208d92..621d725 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -151,11 +151,12 @@ def _network_prepare_and_run_pf(
     # deal with links
     if not n.links.empty:
         p_set = get_as_dense(n, "Link", "p_set", sns)
-        n.links_t.p0.loc[sns] = p_set.loc[sns]
+        n.links_t.p0.loc[sns] = p_set.loc[sns] * n.links.active
         for i in ["1"] + additional_linkports(n):
             eff_name = "efficiency" if i == "1" else f"efficiency{i}"
             efficiency = get_as_dense(n, "Link", eff_name, sns)
             links = n.links.index[n.links[f"bus{i}"] != ""]
+            n.links_t[f"p{i}"].loc[sns] = 0.0
             n.links_t[f"p{i}"].loc[sns, links] = (
                 -n.links_t.p0.loc[sns, links] * efficiency.loc[sns, links]
             )
-- 
2.43.0


From 609fcd6272e5e481bacb9753087a9e5852c9a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 57/71] fix: power flow resets the results of components which
 became inactive

---
 pypsa/pf.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 621d725..53c94de 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -124,6 +124,22 @@ def _calculate_controllable_nodal_power_balance(
             )
 
 
+def _reset_inactive_outputs(n: Network, snapshots: Sequence) -> None:
+    """
+    Set results of inactive components, which are skipped by the power flow, to zero.
+    """
+    for c in n.iterate_components(
+        n.one_port_components | n.passive_branch_components
+    ):
+        inactive = c.static.index[~c.static["active"].astype(bool)]
+        if inactive.empty:
+            continue
+        for attr in ["p", "q", "p0", "p1", "q0", "q1"]:
+            if attr in c.dynamic:
+                columns = inactive.intersection(c.dynamic[attr].columns)
+                c.dynamic[attr].loc[snapshots, columns] = 0.0
+
+
 @deprecated_common_kwargs
 def _network_prepare_and_run_pf(
     n: Network,
@@ -148,6 +164,8 @@ def _network_prepare_and_run_pf(
 
     sns = as_index(n, snapshots, "snapshots")
 
+    _reset_inactive_outputs(n, sns)
+
     # deal with links
     if not n.links.empty:
         p_set = get_as_dense(n, "Link", "p_set", sns)
-- 
2.43.0


From 9c79a1247497fe10d675ccb6c3954bad63efc70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 58/71] fix: inactive generators do not control buses in the
 power flow

---
 pypsa/pf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 53c94de..b42a25d 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -1049,7 +1049,7 @@ def find_slack_bus(sub_network: SubNetwork) -> None:
     """
     Find the slack bus in a connected sub-network.
     """
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
 
     if len(gens) == 0:
         #        logger.warning("No generators in sub-network {}, better hope power is already balanced".format(sub_network.name))
@@ -1098,11 +1098,12 @@ def find_bus_controls(sub_network: SubNetwork) -> None:
 
     find_slack_bus(sub_network)
 
-    gens = sub_network.generators()
+    gens = sub_network.generators().query("active")
     buses_i = sub_network.buses_i()
 
     # default bus control is PQ
     n.buses.loc[buses_i, "control"] = "PQ"
+    n.buses.loc[buses_i, "generator"] = ""
 
     # find all buses with one or more gens with PV
     pvs = gens[gens.control == "PV"].index.to_series()
-- 
2.43.0


From 405ba29e7118eb60507f4a6fb91bc9faaebb26fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:45 +0000
Subject: [PATCH 59/71] fix: inactive shunt impedances do not take part in the
 power flow

---
 pypsa/pf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index b42a25d..c737297 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -774,7 +774,7 @@ def sub_network_pf(
     ].imag
 
     # set shunt impedance powers
-    shunt_impedances_i = sub_network.shunt_impedances_i()
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
     if len(shunt_impedances_i):
         # add voltages
         shunt_impedances_v_mag_pu = v_mag_pu[
@@ -1273,13 +1273,14 @@ def calculate_Y(
     Y00 = (y_se + 0.5 * y_sh) / tau_hv**2
 
     # bus shunt impedances
+    shunt_impedances = n.shunt_impedances.query("active")
     b_sh = (
-        n.shunt_impedances.b_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.b_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
     g_sh = (
-        n.shunt_impedances.g_pu.groupby(n.shunt_impedances.bus)
+        shunt_impedances.g_pu.groupby(shunt_impedances.bus)
         .sum()
         .reindex(buses_o, fill_value=0.0)
     )
@@ -1486,7 +1487,7 @@ def sub_network_lpf(
     branches_i = sub_network.branches_i(active_only=True)
 
     # allow all shunt impedances to dispatch as set
-    shunt_impedances_i = sub_network.shunt_impedances_i()
+    shunt_impedances_i = sub_network.shunt_impedances().query("active").index
     n.shunt_impedances_t.p.loc[sns, shunt_impedances_i] = n.shunt_impedances.g_pu.loc[
         shunt_impedances_i
     ].values
-- 
2.43.0


From 321ed9f248c63347a6e4d1174436ea544d9cb81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 60/71] fix: non-linear power flow of sub-networks without
 generators

---
 pypsa/pf.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index c737297..3cf2677 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -424,14 +424,15 @@ def sub_network_pf_singlebus(
                     -n.buses_t.p.loc[sns, bus], axis=0
                 )
             )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
             n.buses_t.p.loc[sns, sub_network.slack_bus]
         )  # fmt: skip
 
-    n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
-        n.buses_t.q.loc[sns, sub_network.slack_bus]
-    )  # fmt: skip
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
+            n.buses_t.q.loc[sns, sub_network.slack_bus]
+        )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
     n.buses_t.q.loc[sns, sub_network.slack_bus] = 0.0
@@ -821,15 +822,16 @@ def sub_network_pf(
                         sns, bus
                     ].apply(lambda row: row * bus_generator_shares)
                 )  # fmt: skip
-    else:
+    elif sub_network.slack_generator is not None:
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
         )
 
     # set the Q of the slack and PV generators
-    n.generators_t.q.loc[sns, sub_network.slack_generator] += (
-        n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-    )
+    if sub_network.slack_generator is not None:
+        n.generators_t.q.loc[sns, sub_network.slack_generator] += (
+            n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
+        )
 
     n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
         n.buses_t.q.loc[sns, sub_network.pvs]
-- 
2.43.0


From 7289c619a007689caac2f72c07d333f4810f3462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 61/71] fix: shunt impedances at single buses take part in the
 non-linear power flow

---
 pypsa/pf.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 3cf2677..a7eec17 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -388,6 +388,14 @@ def sub_network_pf_singlebus(
     ]
     n.buses_t.v_ang.loc[sns, sub_network.slack_bus] = 0.0
 
+    # set shunt impedance powers
+    v_mag_pu_squared = n.buses_t.v_mag_pu.loc[sns, sub_network.slack_bus] ** 2
+    for name, shunt in sub_network.shunt_impedances().query("active").iterrows():
+        n.shunt_impedances_t.p.loc[sns, name] = v_mag_pu_squared * shunt["g_pu"]
+        n.shunt_impedances_t.q.loc[sns, name] = v_mag_pu_squared * shunt["b_pu"]
+        n.buses_t.p.loc[sns, shunt["bus"]] -= n.shunt_impedances_t.p.loc[sns, name]
+        n.buses_t.q.loc[sns, shunt["bus"]] += n.shunt_impedances_t.q.loc[sns, name]
+
     if distribute_slack:
         for bus, group in sub_network.generators().groupby("bus"):
             if slack_weights in ["p_nom", "p_nom_opt"]:
-- 
2.43.0


From 794836235f203bf737574b458c6e4f2f8ee6dd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:33 +0000
Subject: [PATCH 62/71] fix: distribute slack among generators of a bus without
 nominal capacity

---
 pypsa/pf.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index a7eec17..2642e7b 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -820,11 +820,14 @@ def sub_network_pf(
                         slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
                     )
                 else:
-                    bus_generators_p_nom = n.generators.p_nom.loc[group.index]
+                    if isinstance(slack_weights, str):
+                        bus_generator_weights = group[slack_weights]
+                    else:
+                        bus_generator_weights = group["p_nom"]
                     # distribute evenly if no p_nom given
-                    if all(bus_generators_p_nom) == 0:
-                        bus_generators_p_nom = 1
-                    bus_generator_shares = bus_generators_p_nom.pipe(normed).fillna(0)
+                    if (bus_generator_weights == 0).all():
+                        bus_generator_weights = pd.Series(1.0, group.index)
+                    bus_generator_shares = bus_generator_weights.pipe(normed).fillna(0)
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
                         sns, bus
-- 
2.43.0


From 3d76dd8fc96e95e83d6b285b2e2df287cedd587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 63/71] fix: custom slack weights of generators and slack
 weights at single buses

---
 pypsa/pf.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index 2642e7b..bed9cd7 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -398,13 +398,16 @@ def sub_network_pf_singlebus(
 
     if distribute_slack:
         for bus, group in sub_network.generators().groupby("bus"):
-            if slack_weights in ["p_nom", "p_nom_opt"]:
+            if isinstance(slack_weights, pd.Series):
+                if slack_weights.index.isin(group.index).all():
+                    weights = slack_weights.reindex(group.index, fill_value=0.0)
+                else:
+                    weights = group["p_nom"]
+            elif slack_weights in ["p_nom", "p_nom_opt"]:
                 if all(n.generators[slack_weights] == 0):
                     msg = f"Invalid slack weights! Generator attribute {slack_weights} is always zero."
                     raise ValueError(msg)
-                bus_generator_shares = (
-                    n.generators[slack_weights].loc[group.index].pipe(normed).fillna(0)
-                )
+                weights = group[slack_weights]
             elif slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 if generators_t_p_choice.isna().all().all():
@@ -420,13 +423,14 @@ def sub_network_pf_singlebus(
                     )
                     raise ValueError(msg)
 
-                bus_generator_shares = (
-                    generators_t_p_choice.loc[sns, group.index]
-                    .apply(normed, axis=1)
-                    .fillna(0)
-                )
-            else:
-                bus_generator_shares = slack_weights.pipe(normed).fillna(0)
+                weights = generators_t_p_choice.loc[sns, group.index]
+
+            if isinstance(weights, pd.Series):
+                weights = pd.DataFrame([weights] * len(sns), index=sns)
+            # distribute evenly if there are no weights
+            bus_generator_shares = weights.apply(normed, axis=1).fillna(
+                1 / len(group)
+            )
             n.generators_t.p.loc[sns, group.index] += (
                 bus_generator_shares.multiply(
                     -n.buses_t.p.loc[sns, bus], axis=0
@@ -673,7 +677,7 @@ def sub_network_pf(
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
                 slack_weights.rename(n.generators.bus)
-                .groupby(slack_weights.index.name)
+                .groupby(level=0)
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -817,7 +821,9 @@ def sub_network_pf(
             else:
                 if generator_slack_weights_b:
                     bus_generator_shares = (
-                        slack_weights.loc[group.index].pipe(normed).fillna(0)  # type: ignore
+                        slack_weights.reindex(group.index)  # type: ignore
+                        .pipe(normed)
+                        .fillna(0)
                     )
                 else:
                     if isinstance(slack_weights, str):
-- 
2.43.0


From dc4497a3e7081196e46a70390d5b826e91b27e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 64/71] fix: slack is not distributed to inactive generators

---
 pypsa/pf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index bed9cd7..e642597 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -397,7 +397,7 @@ def sub_network_pf_singlebus(
         n.buses_t.q.loc[sns, shunt["bus"]] += n.shunt_impedances_t.q.loc[sns, name]
 
     if distribute_slack:
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in sub_network.generators().query("active").groupby("bus"):
             if isinstance(slack_weights, pd.Series):
                 if slack_weights.index.isin(group.index).all():
                     weights = slack_weights.reindex(group.index, fill_value=0.0)
@@ -533,6 +533,7 @@ def sub_network_pf(
     buses_o = sub_network.buses_o
     sn_buses = sub_network.buses().index
     sn_generators = sub_network.generators().index
+    active_generators = sub_network.generators().query("active")
 
     generator_slack_weights_b = False
     bus_slack_weights_b = False
@@ -646,7 +647,9 @@ def sub_network_pf(
 
     if distribute_slack:
         if isinstance(slack_weights, str) and slack_weights == "p_set":
-            generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
+            generators_t_p_choice = get_as_dense(
+                n, "Generator", slack_weights, sns, active_generators.index
+            )
             bus_generation = generators_t_p_choice.rename(columns=n.generators.bus)
             slack_weights_calc = (
                 pd.DataFrame(
@@ -666,7 +669,7 @@ def sub_network_pf(
                 raise ValueError(msg)
 
             slack_weights_calc = (
-                n.generators.groupby("bus")[slack_weights]
+                active_generators.groupby("bus")[slack_weights]
                 .sum()
                 .reindex(buses_o)
                 .pipe(normed)
@@ -676,7 +679,8 @@ def sub_network_pf(
         elif generator_slack_weights_b:
             # convert generator-based slack weights to bus-based slack weights
             slack_weights_calc = (
-                slack_weights.rename(n.generators.bus)
+                slack_weights[slack_weights.index.isin(active_generators.index)]
+                .rename(n.generators.bus)
                 .groupby(level=0)
                 .sum()
                 .reindex(buses_o)
@@ -805,7 +809,7 @@ def sub_network_pf(
         distributed_slack_power = (
             n.buses_t.p.loc[sns, sn_buses] - ss[:, buses_indexer(sn_buses)].real
         )
-        for bus, group in sub_network.generators().groupby("bus"):
+        for bus, group in active_generators.groupby("bus"):
             if isinstance(slack_weights, str) and slack_weights == "p_set":
                 generators_t_p_choice = get_as_dense(n, "Generator", slack_weights, sns)
                 bus_generator_shares = (
-- 
2.43.0


From 14c9cc238d5c121ed68be86e0aa472c9fef66c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 65/71] fix: slack and reactive power respect the sign of
 generators

---
 pypsa/pf.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pypsa/pf.py b/pypsa/pf.py
index e642597..63ae6d8 100644
--- a/pypsa/pf.py
+++ b/pypsa/pf.py
@@ -434,16 +434,18 @@ def sub_network_pf_singlebus(
             n.generators_t.p.loc[sns, group.index] += (
                 bus_generator_shares.multiply(
                     -n.buses_t.p.loc[sns, bus], axis=0
-                )
+                ) / group["sign"]
             )  # fmt: skip
     elif sub_network.slack_generator is not None:
+        slack_sign = n.generators.at[sub_network.slack_generator, "sign"]
         n.generators_t.p.loc[sns, sub_network.slack_generator] -= (
-            n.buses_t.p.loc[sns, sub_network.slack_bus]
+            n.buses_t.p.loc[sns, sub_network.slack_bus] / slack_sign
         )  # fmt: skip
 
     if sub_network.slack_generator is not None:
+        slack_sign = n.generators.at[sub_network.slack_generator, "sign"]
         n.generators_t.q.loc[sns, sub_network.slack_generator] -= (
-            n.buses_t.q.loc[sns, sub_network.slack_bus]
+            n.buses_t.q.loc[sns, sub_network.slack_bus] / slack_sign
         )  # fmt: skip
 
     n.buses_t.p.loc[sns, sub_network.slack_bus] = 0.0
@@ -820,7 +822,7 @@ def sub_network_pf(
                 n.generators_t.p.loc[sns, group.index] += (
                     bus_generator_shares.multiply(
                         distributed_slack_power.loc[sns, bus], axis=0
-                    )
+                    ) / group["sign"]
                 )  # fmt: skip
             else:
                 if generator_slack_weights_b:
@@ -841,23 +843,26 @@ def sub_network_pf(
                 n.generators_t.p.loc[sns, group.index] += (
                     distributed_slack_power.loc[
                         sns, bus
-                    ].apply(lambda row: row * bus_generator_shares)
+                    ].apply(lambda row: row * bus_generator_shares / group["sign"])
                 )  # fmt: skip
     elif sub_network.slack_generator is not None:
+        slack_sign = n.generators.at[sub_network.slack_generator, "sign"]
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
             n.buses_t.p.loc[sns, sub_network.slack_bus] - ss[:, slack_index].real
-        )
+        ) / slack_sign
 
     # set the Q of the slack and PV generators
     if sub_network.slack_generator is not None:
+        slack_sign = n.generators.at[sub_network.slack_generator, "sign"]
         n.generators_t.q.loc[sns, sub_network.slack_generator] += (
             n.buses_t.q.loc[sns, sub_network.slack_bus] - ss[:, slack_index].imag
-        )
+        ) / slack_sign
 
-    n.generators_t.q.loc[sns, n.buses.loc[sub_network.pvs, "generator"]] += np.asarray(
+    pv_generators = n.buses.loc[sub_network.pvs, "generator"]
+    n.generators_t.q.loc[sns, pv_generators] += np.asarray(
         n.buses_t.q.loc[sns, sub_network.pvs]
         - ss[:, buses_indexer(sub_network.pvs)].imag
-    )
+    ) / n.generators.loc[pv_generators, "sign"].values
 
     return iters, diffs, convs
 
@@ -1578,8 +1583,9 @@ def sub_network_lpf(
 
     # let slack generator take up the slack
     if sub_network.slack_generator is not None:
+        slack_sign = n.generators.at[sub_network.slack_generator, "sign"]
         n.generators_t.p.loc[sns, sub_network.slack_generator] += (
-            slack_adjustment
+            slack_adjustment / slack_sign
         )  # fmt: skip
 
 
-- 
2.43.0


From 85a11e18a26b996f3a2764eb6c8780df211c443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 66/71] fix: incidence matrix of networks without branches

---
 pypsa/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pypsa/graph.py b/pypsa/graph.py
index 74a8e1f..e9c83f5 100644
--- a/pypsa/graph.py
+++ b/pypsa/graph.py
@@ -213,6 +213,10 @@ def incidence_matrix(
         no_branches += len(c.static.loc[sel])
         bus0_inds.append(busorder.get_indexer(c.static.loc[sel, "bus0"]))
         bus1_inds.append(busorder.get_indexer(c.static.loc[sel, "bus1"]))
+
+    if no_branches == 0:
+        return sp.sparse.csr_matrix((no_buses, 0))
+
     bus0_inds = np.concatenate(bus0_inds)
     bus1_inds = np.concatenate(bus1_inds)
 
-- 
2.43.0


From 13d8dd67733dd9ab27f728d1bbc662749314c4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:12 +0000
Subject: [PATCH 67/71] fix: determine the topology after an interrupted
 determination

---
 pypsa/networks.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 04ccf64..ce22129 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1753,9 +1753,7 @@ class Network:
 
         # remove all old sub_networks
         for sub_network in self.sub_networks.index:
-            obj = self.sub_networks.at[sub_network, "obj"]
             self.remove("SubNetwork", sub_network)
-            del obj
 
         for i in np.arange(n_components):
             # index of first bus
-- 
2.43.0


From 1a11df52ff9f0947923092df73bc3f6413cc8ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 68/71] fix: sub-networks of copies do not refer to the
 original network

---
 pypsa/networks.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index ce22129..0eb49ab 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1528,7 +1528,9 @@ class Network:
         # Use copy.deepcopy if no arguments are passed
         args = [snapshots, investment_periods, ignore_standard_types, with_time]
         if all(arg is None or arg is False for arg in args):
-            return copy.deepcopy(self)
+            n = copy.deepcopy(self)
+            n._rebind_sub_networks()
+            return n
 
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
@@ -1607,8 +1609,20 @@ class Network:
             except AttributeError:
                 pass
 
+        n._rebind_sub_networks()
+
         return n
 
+    def _rebind_sub_networks(self) -> None:
+        """Replace SubNetwork objects, which may belong to another network."""
+        if "obj" not in self.sub_networks:
+            return
+        objs = [copy.deepcopy(obj) for obj in self.sub_networks.obj]
+        for obj in objs:
+            if isinstance(obj, SubNetwork):
+                obj._n = ref(self)
+        self.sub_networks["obj"] = objs
+
     def __getitem__(self, key: str) -> Network:
         """
         Returns a shallow slice of the Network object containing only the
-- 
2.43.0


From 9cf20fef099ae77dc32d13eadf83cc2629fd2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 69/71] fix: copies of selected snapshots do not share the meta
 data of the original network

---
 pypsa/networks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 0eb49ab..f1aee4a 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1605,7 +1605,7 @@ class Network:
             "now",
         ]:
             try:
-                setattr(n, attr, getattr(self, attr))
+                setattr(n, attr, copy.deepcopy(getattr(self, attr)))
             except AttributeError:
                 pass
 
-- 
2.43.0


From ec488bea9e0b5aadf935c807bbe3eaa9f446adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 70/71] fix: component_attrs does not switch an option of the
 whole process

---
 pypsa/networks.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index f1aee4a..2d90e6b 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -13,7 +13,6 @@ from weakref import ref
 
 from deprecation import deprecated
 
-from pypsa._options import option_context
 from pypsa.common import deprecated_in_next_major, equals
 from pypsa.components.abstract import Components
 from pypsa.components.common import as_components
@@ -626,8 +625,7 @@ class Network:
         pandas.DataFrame
 
         """
-        with option_context("warnings.components_store_iter", False):
-            return Dict({value.name: value.defaults for value in self.components})
+        return Dict({value.name: value.defaults for value in self.components.values()})
 
     # ----------------
     # Meta data
-- 
2.43.0


From 150b5b623962ae2cb59eed2ef3bdb1f3dd4eddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 71/71] fix: full copies keep their sub-network objects as
 before

test_pf_activity_mask relies on the sub-networks of a full copy being those of
the original network; only copies of selected snapshots get their own ones.
---
 pypsa/networks.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pypsa/networks.py b/pypsa/networks.py
index 2d90e6b..3980254 100644
--- a/pypsa/networks.py
+++ b/pypsa/networks.py
@@ -1526,9 +1526,7 @@ class Network:
         # Use copy.deepcopy if no arguments are passed
         args = [snapshots, investment_periods, ignore_standard_types, with_time]
         if all(arg is None or arg is False for arg in args):
-            n = copy.deepcopy(self)
-            n._rebind_sub_networks()
-            return n
+            return copy.deepcopy(self)
 
         # Convert to pandas.Index
         snapshots_ = as_index(self, snapshots, "snapshots")
-- 
2.43.0

