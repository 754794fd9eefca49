From 8754233bb1848c2612a84eaaa2adad2156d4f0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 01/38] fix: restart from an output file, which holds a time
 dimension

---
 src/wam2layers/tracking/backtrack.py    | 4 ++--
 src/wam2layers/tracking/forwardtrack.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index c81d5f7..61ff5a3 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -139,8 +139,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
         # Reload last state from existing output
         date = config.tracking_end_date
         ds = xr.open_dataset(output_path(date, config))
-        output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
-        output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
+        output["s_track_upper_restart"].values = ds.s_track_upper_restart.isel(time=0).values
+        output["s_track_lower_restart"].values = ds.s_track_lower_restart.isel(time=0).values
 
     logger.info(f"Output will be written to {config.output_folder.absolute()}.")
     return config, output, grid
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index c3cf2ae..7ee3db2 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -142,8 +142,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
         # Reload last state from existing output
         date = config.tracking_start_date
         ds = xr.open_dataset(output_path(date, config))
-        output["s_track_upper_restart"].values = ds.s_track_upper_restart.values
-        output["s_track_lower_restart"].values = ds.s_track_lower_restart.values
+        output["s_track_upper_restart"].values = ds.s_track_upper_restart.isel(time=0).values
+        output["s_track_lower_restart"].values = ds.s_track_lower_restart.isel(time=0).values
 
     logger.info(f"Output will be written to {config.output_folder.absolute()}.")
     return config, output, grid
-- 
2.43.0


From ef86fe2533ff5573de090f62969bc44ab9261a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 02/38] fix: replace NaN in stabilized fluxes of cells without
 any flux

---
 src/wam2layers/tracking/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index ab99bda..dbda23d 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -154,8 +154,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
 
         # Get rid of any nan values
-        fx_stable.fillna(0)
-        fy_stable.fillna(0)
+        fx_stable = fx_stable.fillna(0)
+        fy_stable = fy_stable.fillna(0)
 
         # Re-instate the sign and convert back to flux instead of accumulation
         F["fx_" + level] = np.sign(fx) * fx_stable / config.timestep
-- 
2.43.0


From ea918076580deba67de5ae4e44cb9a70ff44bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 03/38] fix: cell area and width of grids with different
 spacing in latitude and longitude

---
 src/wam2layers/utils/grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 812eb15..6f14f95 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -51,8 +51,8 @@ def get_grid_info(ds):
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-    lat_n = np.minimum(90.0, latitude + 0.5 * dx_deg)
-    lat_s = np.maximum(-90.0, latitude - 0.5 * dx_deg)
+    lat_n = np.minimum(90.0, latitude + 0.5 * dy_deg)
+    lat_s = np.maximum(-90.0, latitude - 0.5 * dy_deg)
 
     a = (
         np.pi
@@ -64,8 +64,8 @@ def get_grid_info(ds):
 
     # Calculate faces
     dy = dy_deg * dg  # [m] grid spacing in meridional direction
-    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dx_deg / 2) * np.pi / 180)
-    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dx_deg / 2) * np.pi / 180)
+    dx_n_gridcell = dx_deg * dg * np.cos((latitude + dy_deg / 2) * np.pi / 180)
+    dx_s_gridcell = dx_deg * dg * np.cos((latitude - dy_deg / 2) * np.pi / 180)
     dx = 0.5 * (dx_n_gridcell + dx_s_gridcell)  # [m] grid spacing in zonal direction
     return a, dy, dx[:, None]
 
-- 
2.43.0


From 6f80525eb5ce1a374fc71fb027cb69e168e95ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/38] fix: grid spacing of a domain starting right before the
 antimeridian

---
 src/wam2layers/utils/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/utils/grid.py b/src/wam2layers/utils/grid.py
index 6f14f95..22f053c 100644
--- a/src/wam2layers/utils/grid.py
+++ b/src/wam2layers/utils/grid.py
@@ -48,6 +48,8 @@ def get_grid_info(ds):
     latitude = ds.latitude.values
     longitude = ds.longitude.values
     dx_deg = np.abs(longitude[1] - longitude[0])  # [degrees]
+    if dx_deg > 180:  # first two cells lie on either side of the antimeridian
+        dx_deg = 360 - dx_deg
     dy_deg = np.abs(latitude[1] - latitude[0])  # [degrees]
 
     # Calculate area TODO check this calculation!
-- 
2.43.0


From 57e4ec8da1f5d9867c3ad34fda0a74f9a48c0924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 05/38] fix: include the edges of a tracking domain that
 crosses the antimeridian

---
 src/wam2layers/tracking/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index ba93247..69c7ea0 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -56,10 +56,10 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         # Need to roll coordinates to maintain a continuous longitude
         # Roll the first lon that's NOT in the bbox to the front of the array
         # That way, all values that ARE in the bbox, must be contiguous.
-        in_bbox = (ds.longitude < east) | (ds.longitude > west)
+        in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
         n_roll = in_bbox.argmin().item()  # first false value
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
-        in_bbox = (ds_rolled.longitude < east) | (ds_rolled.longitude > west)
+        in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
 
 
-- 
2.43.0


From 68f853500f3f1c9463a9532394df257e9a9a4ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/38] fix: expand ~ in the data folders of the configuration

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 5c67480..4b942cd 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -526,7 +526,7 @@ class Config(BaseModel):
     def _expanduser(cls, path):
         """Resolve ~ in input paths."""
         if isinstance(path, Path):
-            return path.absolute()
+            return path.expanduser().absolute()
         return path  # Leave URLs untouched
 
     @field_validator("preprocessed_data_folder", "output_folder")
-- 
2.43.0


From 7b188d6de1f5d129251085b8e5be43af840ff765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 07/38] fix: keep the seconds of dates when exporting the
 configuration

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 4b942cd..469ce64 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -605,5 +605,5 @@ class Config(BaseModel):
         jsondict = json.loads(jsonconfig)
 
         for date in dates:
-            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M")
+            jsondict[date] = getattr(self, date).strftime("%Y-%m-%dT%H:%M:%S")
         return json.dumps(jsondict)
-- 
2.43.0


From ac390c093ba79dd21c76736f769441043249ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 08/38] fix: do not store the server's error page as a
 downloaded file

---
 src/wam2layers/download.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index a55d4b1..4a84f7e 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -69,6 +69,7 @@ def download(url, destination, local_filename=None):
 
     logging.info(f"Downloading {local_filename}")
     with requests.get(url, stream=True) as r:
+        r.raise_for_status()
         with open(local_path, "wb") as f:
             shutil.copyfileobj(r.raw, f)
 
-- 
2.43.0


From fc19ff2def8320d8bdf037386239298e71894f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 09/38] fix: add negative evaporation of CMIP data to the
 precipitation instead of subtracting it

---
 src/wam2layers/preprocessing/cmip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/cmip.py b/src/wam2layers/preprocessing/cmip.py
index cd1935e..888093a 100644
--- a/src/wam2layers/preprocessing/cmip.py
+++ b/src/wam2layers/preprocessing/cmip.py
@@ -55,7 +55,8 @@ def get_input_data(datetime: CfDateTime, config: Config):
     data["precip"] = load_cmip_var("tp", datetime, config)
     data["evap"] = load_cmip_var("e", datetime, config)
 
-    data["precip"] = np.maximum(data["precip"], 0) + np.minimum(data["evap"], 0)
+    # Negative evaporation (dew) is added to the precipitation
+    data["precip"] = np.maximum(data["precip"], 0) - np.minimum(data["evap"], 0)
     data["evap"] = np.abs(np.maximum(data["evap"], 0))
 
     return data
-- 
2.43.0


From 77ede2f0b332ef5c846e84b588f1284c299e1a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 10/38] fix: store preprocessed data with decreasing latitude,
 as the tracking assumes

---
 src/wam2layers/preprocessing/shared.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/preprocessing/shared.py b/src/wam2layers/preprocessing/shared.py
index 0c60073..ce44a02 100644
--- a/src/wam2layers/preprocessing/shared.py
+++ b/src/wam2layers/preprocessing/shared.py
@@ -216,6 +216,7 @@ def preprocess(
         )
 
         ds = shift_longitude(ds)
+        ds = ds.sortby("latitude", ascending=False)  # tracking assumes north to south
         add_bounds(ds)
 
         # Add attributes
-- 
2.43.0


From cfb775b615fe7d8b053dc39e85b323ddad6a3c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 11/38] fix: subtract numerically gained moisture in the
 tagging closure

---
 src/wam2layers/utils/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/profiling.py b/src/wam2layers/utils/profiling.py
index 1c2ef64..df635f8 100644
--- a/src/wam2layers/utils/profiling.py
+++ b/src/wam2layers/utils/profiling.py
@@ -106,7 +106,7 @@ class ProgressTracker:
             tracked_percentage
             + in_atmos_percentage
             + lost_percentage
-            + gained_percentage
+            - gained_percentage
             + boundary_percentage
         )
 
-- 
2.43.0


From 0b29a0a19528e1034d8965a0bc8138c897f21085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 12/38] fix: run with a configuration file that already is in
 the output folder

---
 src/wam2layers/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wam2layers/cli.py b/src/wam2layers/cli.py
index 6c6cf71..c4310ad 100644
--- a/src/wam2layers/cli.py
+++ b/src/wam2layers/cli.py
@@ -63,6 +63,9 @@ def setup_logging(log_path: Union[str, Path], debug: bool):
 
 def _copy_config_yaml(yaml_path, target_path):
     """Copy config file to the output path."""
+    target_file = Path(target_path) / Path(yaml_path).name
+    if target_file.exists() and target_file.samefile(yaml_path):
+        return  # the config file is already where it should be copied to
     shutil.copy(yaml_path, target_path)
 
 
-- 
2.43.0


From 2babab9fe65db45a82e14bc2ba0c695127f8b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 13/38] fix: reject a timestep of zero (endless run) or less

---
 src/wam2layers/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index 469ce64..e773b4d 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -342,7 +342,7 @@ class Config(BaseModel):
 
     """
 
-    timestep: int
+    timestep: Annotated[int, Field(gt=0)]
     """Timestep in seconds with which to perform the tracking.
 
     The data will be interpolated during model execution. Too large timestep will
-- 
2.43.0


From 95ce1b666584ff90f7ef85e8727ee9d02f5f5565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 14/38] fix: time bounds of outputs that span less than the
 output frequency

---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 src/wam2layers/tracking/io.py           | 14 +++++---------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 61ff5a3..2f3416e 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -161,6 +161,7 @@ def run_experiment(config_file: Config):
     )
 
     t0, th, t1, dt = initialize_time(config, direction="backward")
+    t_previous_output = t1
 
     if isinstance(config.tagging_region, Path):
         tagging_region = load_tagging_region(config)
@@ -208,7 +209,8 @@ def run_experiment(config_file: Config):
         if is_output_time or is_final_step:
             progress_tracker.print_progress(t1, output)
             progress_tracker.store_intermediate_states(output)
-            write_output(output, t1, config)
+            write_output(output, t1, config, t_previous_output)
+            t_previous_output = t1
             # Flush previous outputs
             output[["e_track", "tagged_precip", "losses", "gains"]] *= 0
 
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 7ee3db2..144a865 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -164,6 +164,7 @@ def run_experiment(config_file: Config):
     )
 
     t0, th, t1, dt = initialize_time(config, direction="forward")
+    t_previous_output = t0
 
     if isinstance(config.tagging_region, Path):
         tagging_region = load_tagging_region(config)
@@ -217,7 +218,8 @@ def run_experiment(config_file: Config):
         if is_output_time or is_final_step:
             progress_tracker.print_progress(t0, output)
             progress_tracker.store_intermediate_states(output)
-            write_output(output, t0, config)
+            write_output(output, t0, config, t_previous_output)
+            t_previous_output = t0
             # Flush previous outputs
             output[
                 ["p_track_upper", "p_track_lower", "tagged_evap", "losses", "gains"]
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 69c7ea0..df7db2a 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -8,7 +8,6 @@ from pathlib import Path
 from typing import Optional
 
 import numpy as np
-import pandas as pd
 import xarray as xr
 
 from wam2layers import __version__
@@ -155,13 +154,9 @@ def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
     return tagging_region
 
 
-def add_time_bounds(ds: xr.Dataset, t: CfDateTime, config: Config):
-    """Compute the time bounds and add them to the output dataset."""
-    dt = pd.Timedelta(config.output_frequency)
-    if config.tracking_direction == "forward":
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t - dt, t),)))
-    else:
-        ds["time_bnds"] = (("time", "bnds"), np.array(((t + dt, t),)))
+def add_time_bounds(ds: xr.Dataset, t: CfDateTime, t_previous: CfDateTime):
+    """Add the bounds of the time interval over which the output accumulated."""
+    ds["time_bnds"] = (("time", "bnds"), np.array(((t_previous, t),)))
 
 
 def get_main_attrs(attrs: dict, config: Config):
@@ -191,6 +186,7 @@ def write_output(
     output: xr.Dataset,
     t: CfDateTime,
     config: Config,
+    t_previous: CfDateTime,
 ) -> None:
     # TODO: add back (and cleanup) coordinates and units
     path = output_path(t, config)
@@ -203,7 +199,7 @@ def write_output(
         output[var].attrs.update(DATA_ATTRIBUTES[str(var)])
 
     add_bounds(output)
-    add_time_bounds(output, t, config)
+    add_time_bounds(output, t, t_previous)
     output.attrs = get_main_attrs(output.attrs, config)
 
     comp = dict(zlib=True, complevel=8)
-- 
2.43.0


From a6575a069c5fb6141740790be3b68cf84662c09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 15/38] fix: accept the documented "all" for levels and use all
 model levels then

---
 src/wam2layers/config.py             | 2 +-
 src/wam2layers/preprocessing/era5.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/config.py b/src/wam2layers/config.py
index e773b4d..9d33f70 100644
--- a/src/wam2layers/config.py
+++ b/src/wam2layers/config.py
@@ -383,7 +383,7 @@ class Config(BaseModel):
 
     """
 
-    levels: "Union[List[int], Literal['All']]"
+    levels: "Union[List[int], Literal['All', 'all']]"
     """Which levels to use from the raw input data.
 
     A list of integers corresponding to the levels in the input data, or a
diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 513ad57..c3f13e0 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -179,6 +179,8 @@ def get_edges(era5_modellevels):
 
 def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
+    if levels in ("All", "all"):
+        levels = list(range(1, 138))
     a, b = get_edges(levels)
 
     # Use dummy level -1 to avoid collision with existing levels
-- 
2.43.0


From 09cfac3876f712ef606d6fde90554d34eeeb7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 16/38] fix: moisture divergence at the seam of a periodic
 domain

---
 src/wam2layers/tracking/backtrack.py    |  4 +++-
 src/wam2layers/tracking/core.py         | 15 ++++++++++-----
 src/wam2layers/tracking/forwardtrack.py |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index 2f3416e..f8b4bc0 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -195,7 +195,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S1, progress_tracker, config, t1)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # Inside backtrack the "output" dictionary is updated
         backtrack(F, S1, S0, tagging_mask, output, config)
diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index dbda23d..09fb0e7 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -162,12 +162,16 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         F["fy_" + level] = np.sign(fy) * fy_stable / config.timestep
 
 
-def divergence(fx, fy):
+def divergence(fx, fy, periodic_x=False):
+    if periodic_x:
+        dfx = np.gradient(pad_x_wrap(fx), axis=-1)[:, 1:-1]
+    else:
+        dfx = np.gradient(fx, axis=-1)
     # Note: latitude decreasing, hence negative fy gradient is divergence
-    return np.gradient(fx, axis=-1) - np.gradient(fy, axis=-2)
+    return dfx - np.gradient(fy, axis=-2)
 
 
-def calculate_fz(F, S0, S1, dt, kvf):
+def calculate_fz(F, S0, S1, dt, kvf, periodic_x=False):
     """Calculate the vertical fluxes.
 
     The vertical flux is calculated as a closure term. Residuals are distributed
@@ -182,6 +186,7 @@ def calculate_fz(F, S0, S1, dt, kvf):
         dt: timestep
         kvf: net to gross vertical flux multiplication parameter. With the a value of 0,
             the net and gross fluxes are equal.
+        periodic_x: whether the domain is periodic in the zonal direction
 
     Returns:
         fz: vertical flux, positive downward
@@ -226,10 +231,10 @@ def calculate_fz(F, S0, S1, dt, kvf):
 
     # Evaluate all terms in the moisture balance execpt the unknown Fz and err
     foo_upper = (S1 - S0).s_upper + dt * (
-        divergence(F.fx_upper, F.fy_upper) + F.precip.values * s_rel.s_upper
+        divergence(F.fx_upper, F.fy_upper, periodic_x) + F.precip.values * s_rel.s_upper
     ) / a[:, None]
     foo_lower = (S1 - S0).s_lower + dt * (
-        divergence(F.fx_lower, F.fy_lower) + F.precip.values * s_rel.s_lower - F.evap
+        divergence(F.fx_lower, F.fy_lower, periodic_x) + F.precip.values * s_rel.s_lower - F.evap
     ) / a[:, None]
 
     # compute the resulting vertical moisture flux; the vertical velocity so
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index 144a865..aa3a31e 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -203,7 +203,9 @@ def run_experiment(config_file: Config):
         stabilize_fluxes(F, S0, progress_tracker, config, t0)
 
         # Determine the vertical moisture flux
-        F["f_vert"] = calculate_fz(F, S0, S1, config.timestep, config.kvf)
+        F["f_vert"] = calculate_fz(
+            F, S0, S1, config.timestep, config.kvf, config.periodic_boundary
+        )
 
         # TODO: consider changing signature to F, S0, S1
         # Inside forwardtrack the "output" dictionary is updated
-- 
2.43.0


From fc5d1bf3eb0c68c70e5863d569b31be03d729664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 17/38] fix: a tracking domain with west equal to east is not
 the whole globe

---
 src/wam2layers/tracking/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index df7db2a..f85dde2 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -45,7 +45,7 @@ def fully_load_and_detach(ds: xr.Dataset) -> xr.Dataset:
 def select_subdomain(ds: xr.Dataset, bbox: str):
     """Limit the data to a subdomain."""
     west, south, east, north = [float(p) for p in bbox.split(", ")]
-    if west < east:
+    if west <= east:
         return ds.sel(
             longitude=slice(west, east),  # -180 to 180
             latitude=slice(north, south),  # 90 - -90 (decreasing)
-- 
2.43.0


From 519a82d7434b5d477fb63206568fb861f845cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 18/38] fix: keep a subdomain contiguous if all data lies in a
 bbox across the antimeridian

---
 src/wam2layers/tracking/io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index f85dde2..28253bf 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -57,6 +57,10 @@ def select_subdomain(ds: xr.Dataset, bbox: str):
         # That way, all values that ARE in the bbox, must be contiguous.
         in_bbox = (ds.longitude <= east) | (ds.longitude >= west)
         n_roll = in_bbox.argmin().item()  # first false value
+        if in_bbox.all():
+            # Nothing is outside the bbox, start after the largest gap instead
+            lon = ds.longitude.values
+            n_roll = int(np.argmax((lon - np.roll(lon, 1)) % 360))
         ds_rolled = ds.roll(longitude=-n_roll, roll_coords=True)
         in_bbox = (ds_rolled.longitude <= east) | (ds_rolled.longitude >= west)
         return ds_rolled.sel(longitude=in_bbox, latitude=slice(north, south))
-- 
2.43.0


From 768db760491eb5a61100ec418161d134daea2b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:43 +0000
Subject: [PATCH 19/38] fix: accept the documented "1d" as output frequency

---
 src/wam2layers/utils/calendar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 5246a64..875979e 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -102,6 +102,7 @@ def fix_deprecated_frequency(freq: str) -> str:
         r"(?i)^(\d*)L$": r"\1ms",
         r"(?i)^(\d*)U$": r"\1us",
         r"(?i)^(\d*)N$": r"\1ns",
+        r"(?i)^(\d*)D$": r"\1D",  # "1d" is rejected for cftime dates
     }
 
     for pattern, repl in deprecated_map.items():
-- 
2.43.0


From 08babecf7c4abeee60153520e7ce6473647729e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 20/38] fix: validate the dimensions of total column water too

---
 src/wam2layers/preprocessing/input_validation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wam2layers/preprocessing/input_validation.py b/src/wam2layers/preprocessing/input_validation.py
index af55fe3..687c3df 100644
--- a/src/wam2layers/preprocessing/input_validation.py
+++ b/src/wam2layers/preprocessing/input_validation.py
@@ -35,6 +35,8 @@ def validate_vars(data: xr.Dataset, config: Config) -> None:
         expected_surface_vars.extend(["qs", "us", "vs"])
     if config.level_type == "model_levels":
         expected_level_vars.extend(["dp"])
+    if "tcw" in data.data_vars:  # optional
+        expected_surface_vars.extend(["tcw"])
 
     # Check if the variables are present
     for var in expected_level_vars + expected_surface_vars:
-- 
2.43.0


From 13f924d60573200a248111338b30f0b088424657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:48 +0000
Subject: [PATCH 21/38] fix: name the variable if its CMIP files are missing

---
 src/wam2layers/utils/calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index 875979e..d7d23fa 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -80,7 +80,10 @@ def validate_calendar_type(config: "Config") -> None:
 
 def template_to_files(config: "Config", var: str) -> list[Path]:
     template = Path(config.filename_template.format(variable=var))
-    return list(template.parent.glob(template.name))
+    files = list(template.parent.glob(template.name))
+    if not files:
+        raise FileNotFoundError(f"No files found for variable '{var}': {template}")
+    return files
 
 
 def fix_deprecated_frequency(freq: str) -> str:
-- 
2.43.0


From 3ebaf050f0085e795b0c9b11a78a2e82b077a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 22/38] fix: store downloaded files decompressed if the server
 compresses them

---
 src/wam2layers/download.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index 4a84f7e..ca6a205 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -2,7 +2,6 @@
 
 import logging
 import re
-import shutil
 from pathlib import Path
 
 import requests
@@ -71,7 +70,9 @@ def download(url, destination, local_filename=None):
     with requests.get(url, stream=True) as r:
         r.raise_for_status()
         with open(local_path, "wb") as f:
-            shutil.copyfileobj(r.raw, f)
+            # (not r.raw, which is still compressed if the server compresses)
+            for chunk in r.iter_content(chunk_size=2**20):
+                f.write(chunk)
 
 
 def get_4tu_id(doi):
-- 
2.43.0


From b9f304b860f6941b98e839bf077303ea75c359ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 23/38] fix: report stability corrections of purely zonal
 fluxes too

---
 src/wam2layers/tracking/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/tracking/core.py b/src/wam2layers/tracking/core.py
index 09fb0e7..e88be14 100644
--- a/src/wam2layers/tracking/core.py
+++ b/src/wam2layers/tracking/core.py
@@ -151,7 +151,8 @@ def stabilize_fluxes(F, S, progress_tracker: ProgressTracker, config: Config, t)
         fy_limit = 1 / 2 * fy_abs / ft_abs * s.values
         fy_stable = np.minimum(fy_abs, fy_limit)
 
-        progress_tracker.track_stability_correction(fy_stable, fy_abs, config, t)
+        ft_stable = np.minimum(ft_abs, 1 / 2 * s.values)
+        progress_tracker.track_stability_correction(ft_stable, ft_abs, config, t)
 
         # Get rid of any nan values
         fx_stable = fx_stable.fillna(0)
-- 
2.43.0


From 0749244491c3f2e00e155d24cc05012dfff0c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 24/38] fix: sum exactly the outputs of an experiment in the
 figure of its output

---
 src/wam2layers/analysis/visualization.py | 30 +++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index 68df185..aa369f1 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -17,6 +17,7 @@ from wam2layers.tracking.io import (
     write_output,
 )
 from wam2layers.tracking.shared import initialize_tagging_region
+from wam2layers.utils.calendar import round_cftime
 from wam2layers.utils.grid import get_boundary, get_grid_info
 
 logger = logging.getLogger(__name__)
@@ -109,6 +110,23 @@ def _plot_input(config: Config, ax):
     polish(ax, region.where(region > 0, drop=True))
 
 
+def _output_dates(config: Config) -> list:
+    """Return the dates for which the tracking experiment writes its output."""
+    start, end = config.tracking_start_date, config.tracking_end_date
+    dt = pd.Timedelta(seconds=config.timestep).to_pytimedelta()
+    steps = range(1, (end - start) // dt + 1)
+    if config.tracking_direction == "backward":
+        dates = [end - i * dt for i in steps]
+    else:
+        dates = [start + i * dt for i in steps]
+
+    return [
+        t
+        for t in dates
+        if t == round_cftime(t, config.output_frequency, "floor") or t == dates[-1]
+    ]
+
+
 def _plot_output(config: Config, ax):
     """
     Return subplot with tracked moisture
@@ -131,17 +149,7 @@ def _plot_output(config: Config, ax):
     # region = load_tagging_region(config)
 
     # Load data
-    dates = xr.cftime_range(
-        start=config.tracking_start_date,
-        end=config.tracking_end_date,
-        freq=config.output_frequency,
-        inclusive="left",
-    )
-
-    if config.tracking_direction == "backward":
-        output_files = [output_path(date, config) for date in dates[:-1]]
-    else:
-        output_files = [output_path(date, config) for date in dates[1:]]
+    output_files = [output_path(date, config) for date in _output_dates(config)]
 
     if not all([Path(file).exists() for file in output_files]):
         raise FileNotFoundError(f"Could not find all files: {output_files}.")
-- 
2.43.0


From 2e2160c98df8fb47853d3136fb8985e646fda208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 25/38] fix: draw the input figure from the data of the tagging
 period

---
 src/wam2layers/analysis/visualization.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/wam2layers/analysis/visualization.py b/src/wam2layers/analysis/visualization.py
index aa369f1..797dad2 100644
--- a/src/wam2layers/analysis/visualization.py
+++ b/src/wam2layers/analysis/visualization.py
@@ -83,26 +83,28 @@ def _plot_input(config: Config, ax):
     # Load data
     start = config.tagging_start_date
     end = config.tagging_end_date
-    dates = pd.date_range(
-        start=start,
+    dates = xr.cftime_range(
+        start=round_cftime(start, "1D", "floor"),
         end=end,
-        freq=config.output_frequency,
-        inclusive="left",
+        freq="1D",
     )
 
     input_files = []
-    for date in dates[:-1]:
+    for date in dates:
         input_files.append(
             input_path(date, config.preprocessed_data_folder)
         )  # takes current directory but needs a better fix
-    ds = xr.open_mfdataset(input_files, combine="nested", concat_dim="time")
+    ds = xr.open_mfdataset(
+        input_files, combine="nested", concat_dim="time", use_cftime=True
+    )
     if config.tracking_direction == "backward":
         subset = ds.precip.sel(time=slice(start, end))
     else:
         subset = ds.evap.sel(time=slice(start, end))
 
     # TODO: check if backtrack files or forwardtrack files were in output
-    input = (subset * region * 3600).sum("time").compute()
+    nseconds = pd.Timedelta(config.input_frequency).total_seconds()
+    input = (subset * region * nseconds).sum("time").compute()
 
     # Make figure
     input.plot(ax=ax, cmap=cmocean.cm.rain, cbar_kwargs=dict(fraction=0.05, shrink=0.5))
-- 
2.43.0


From e4ce9a04abb564a133037d76ee091b59fc737746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 26/38] fix: combine several regions to their union

---
 src/wam2layers/utils/tagging_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 3cd74e2..c36721f 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -94,7 +94,7 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
     new_masks = np.where(
         new_masks == False, 0, 1
     )  # Replace True and False by 1 and 0's
-    new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+    new_masks = np.nanmax(new_masks, axis=0)  # Multiple masks into 1D array
 
     # Export as tagging region for WAM2layers
 
@@ -200,7 +200,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.nanmax(new_masks, axis=0)  # Multiple masks into 1D array
     else:
         new_masks = mask.isel(region=[0]).values
 
@@ -208,7 +208,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
         new_masks = np.where(
             new_masks == False, 0, 1
         )  # Replace True and False by 1 and 0's
-        new_masks = np.nanmean(new_masks, axis=0)  # Multiple masks into 1D array
+        new_masks = np.nanmax(new_masks, axis=0)  # Multiple masks into 1D array
 
     # Export as tagging region for WAM2layers
 
-- 
2.43.0


From 892f236edcac998016fc780a6443774b235a3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 27/38] fix: keep the numbers of regions outside of the grid

---
 src/wam2layers/utils/tagging_region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index c36721f..359e0d4 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -65,7 +65,7 @@ def mask_with_regionmask(region_source, regions, input_file, output_dir, return_
             )
 
     # create (a) mask(s) of the required region(s):
-    mask = getattr(available_regions, "mask_3D")(longitude, latitude)
+    mask = getattr(available_regions, "mask_3D")(longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     region_ids = np.array(regions)
@@ -182,7 +182,7 @@ def mask_with_shapefile(shapefile, regions, reference_file, output_dir, return_p
     ds = gpd.read_file(shapefile)  # load shape file
 
     # Generate mask
-    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude)
+    mask = regionmask.mask_3D_geopandas(ds, longitude, latitude, drop=False)
 
     # Specify region ID - what to store
     if regions != False:
-- 
2.43.0


From 4e24f98d7c9567aa3313726f537fc9d901056d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 28/38] fix: extend square regions across the antimeridian

---
 src/wam2layers/utils/tagging_region.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/wam2layers/utils/tagging_region.py b/src/wam2layers/utils/tagging_region.py
index 359e0d4..dcad281 100644
--- a/src/wam2layers/utils/tagging_region.py
+++ b/src/wam2layers/utils/tagging_region.py
@@ -377,9 +377,9 @@ def mask_around_point(
     center_lat, center_lon = centerpoint
 
     # Set the square region of value 1 in the mask
-    mask = (np.abs(latitude - center_lat) <= radius) & (
-        np.abs(longitude - center_lon) <= radius
-    )
+    # distance along the shortest way around the globe
+    dlon = np.abs((longitude - center_lon + 180) % 360 - 180)
+    mask = (np.abs(latitude - center_lat) <= radius) & (dlon <= radius)
 
     new_masks = np.where(mask == False, 0, 1)  # Replace True and False by 1 and 0's
 
@@ -506,9 +506,9 @@ def mask_around_track(
         center_lat, center_lon = centerpoint
 
         # Set the square region of value 1 in the mask
-        mask = (np.abs(latitude - center_lat) <= radius) & (
-            np.abs(longitude - center_lon) <= radius
-        )
+        # distance along the shortest way around the globe
+        dlon = np.abs((longitude - center_lon + 180) % 360 - 180)
+        mask = (np.abs(latitude - center_lat) <= radius) & (dlon <= radius)
 
         new_masks[t, ::] = np.where(
             mask == False, 0, 1
-- 
2.43.0


From 9755b832b6e21ff60a1fcd92fa0680fd0e1ceb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 29/38] fix: allow shapefile regions with a data folder behind
 a URL

---
 src/wam2layers/tracking/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 28253bf..189e99c 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -140,7 +140,11 @@ def load_data(t: CfDateTime, config: Config, subset: str = "fluxes") -> xr.Datas
 def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
     if config.tagging_region.suffix == ".shp":
         logger.info("Generating mask from shapefile...")
-        ds = xr.open_dataset(next(config.preprocessed_data_folder.glob("*.nc")))
+        if isinstance(config.preprocessed_data_folder, Path):
+            ds = xr.open_dataset(next(config.preprocessed_data_folder.glob("*.nc")))
+        else:  # files behind a URL cannot be listed
+            date = config.tracking_start_date
+            ds = read_or_retry(input_path(date, config.preprocessed_data_folder))
         tagging_region = create_mask(ds, config.tagging_region)
         logger.info("Writing mask to debug folder.")
         (config.output_folder / "debug").mkdir(exist_ok=True)
-- 
2.43.0


From 9413b86b7c589c4e8ef4a118d4acd40721e4fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 30/38] fix: compute the edges of model levels listed in any
 order

---
 src/wam2layers/preprocessing/era5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index c3f13e0..99d492d 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -181,6 +181,7 @@ def get_dp_modellevels(sp, levels):
     """Calculate pressure jump over subset of era5 modellevels."""
     if levels in ("All", "all"):
         levels = list(range(1, 138))
+    levels = sorted(levels)  # edges are only defined between successive levels
     a, b = get_edges(levels)
 
     # Use dummy level -1 to avoid collision with existing levels
-- 
2.43.0


From 4b4ffd0b23e3c1541220b488ffa018918c6d01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 31/38] fix: fail if the request of the catalogue fails

---
 src/wam2layers/download.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/download.py b/src/wam2layers/download.py
index ca6a205..1d07a1c 100644
--- a/src/wam2layers/download.py
+++ b/src/wam2layers/download.py
@@ -143,7 +143,11 @@ def download_from_4tu(doi, name):
     catalog_url = get_4tu_catalog(id_4tu)
 
     # Extract individual file urls from catalogue and download them separately
-    file_urls = threddsclient.download_urls(catalog_url)
+    # (threddsclient passes on the hooks but doesn't look at the status itself)
+    file_urls = threddsclient.download_urls(
+        catalog_url,
+        hooks={"response": lambda response, *_, **__: response.raise_for_status()},
+    )
     for file_url in file_urls:
         download(file_url, target_dir)
 
-- 
2.43.0


From 350649f4762b3cb95ceb8844bb795b0fda8e6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:16 +0000
Subject: [PATCH 32/38] fix: refuse model level data that lacks levels if all
 are wanted

---
 src/wam2layers/preprocessing/era5.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wam2layers/preprocessing/era5.py b/src/wam2layers/preprocessing/era5.py
index 99d492d..8242e9f 100644
--- a/src/wam2layers/preprocessing/era5.py
+++ b/src/wam2layers/preprocessing/era5.py
@@ -119,6 +119,11 @@ def load_data(variable: str, datetime: CfDateTime, config: Config) -> xr.DataArr
     if variable in ["u", "v", "q"] and isinstance(config.levels, list):
         return da.sel(level=config.levels)
 
+    # All model levels means all 137; the layers would not add up to the column
+    # if only those that happen to be in the file were used
+    if variable in ["u", "v", "q"] and config.level_type == "model_levels":
+        return da.sel(level=list(range(1, 138)))
+
     return da
 
 
-- 
2.43.0


From ecf8f7fa6ca144854e97d16e0318485405c680a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:12 +0000
Subject: [PATCH 33/38] fix: keep the source and history of the data in the
 attributes of outputs

---
 src/wam2layers/tracking/backtrack.py    | 6 ++++--
 src/wam2layers/tracking/forwardtrack.py | 6 ++++--
 src/wam2layers/tracking/io.py           | 3 ++-
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/wam2layers/tracking/backtrack.py b/src/wam2layers/tracking/backtrack.py
index f8b4bc0..1f8f901 100644
--- a/src/wam2layers/tracking/backtrack.py
+++ b/src/wam2layers/tracking/backtrack.py
@@ -122,7 +122,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_end_date
-    grid = load_data(t, config, "states").coords
+    states = load_data(t, config, "states")
+    grid = states.coords
     output = xr.Dataset(
         {
             # Keep last state for a restart
@@ -132,7 +133,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
             "tagged_precip": xr.DataArray(0, coords=grid).astype("float32"),
             "losses": xr.DataArray(0, coords=grid).astype("float32"),
             "gains": xr.DataArray(0, coords=grid).astype("float32"),
-        }
+        },
+        attrs=states.attrs,  # source and history of the data
     )
 
     if config.restart:
diff --git a/src/wam2layers/tracking/forwardtrack.py b/src/wam2layers/tracking/forwardtrack.py
index aa3a31e..d29c4a3 100644
--- a/src/wam2layers/tracking/forwardtrack.py
+++ b/src/wam2layers/tracking/forwardtrack.py
@@ -124,7 +124,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
 
     # Initialize outputs as empty fields based on the input coords
     t = config.tracking_start_date
-    grid = load_data(t, config, "states").coords
+    states = load_data(t, config, "states")
+    grid = states.coords
     output = xr.Dataset(
         {
             # Keep last state for a restart
@@ -135,7 +136,8 @@ def initialize(config_file: Config) -> tuple[Config, xr.Dataset, DatasetCoordina
             "tagged_evap": xr.DataArray(0, coords=grid).astype("float32"),
             "losses": xr.DataArray(0, coords=grid).astype("float32"),
             "gains": xr.DataArray(0, coords=grid).astype("float32"),
-        }
+        },
+        attrs=states.attrs,  # source and history of the data
     )
 
     if config.restart:
diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 189e99c..36ac1cd 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -134,7 +134,8 @@ def load_data(t: CfDateTime, config: Config, subset: str = "fluxes") -> xr.Datas
 
     da0 = load_slice(t0, subset, config)
     da1 = load_slice(t1, subset, config)
-    return da0 + (t - t0) / (t1 - t0) * (da1 - da0)
+    da = da0 + (t - t0) / (t1 - t0) * (da1 - da0)
+    return da.assign_attrs(da0.attrs)
 
 
 def load_tagging_region(config: Config, t: Optional[CfDateTime] = None):
-- 
2.43.0


From 12c739574236a66f7420330134fc3f0f9f133d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:13 +0000
Subject: [PATCH 34/38] fix: bounds of the cells in narrow domains across the
 antimeridian

---
 src/wam2layers/preprocessing/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/utils.py b/src/wam2layers/preprocessing/utils.py
index 50b6bb6..673b600 100644
--- a/src/wam2layers/preprocessing/utils.py
+++ b/src/wam2layers/preprocessing/utils.py
@@ -206,7 +206,9 @@ def add_bounds(ds: xr.Dataset) -> None:
     lats = ds["latitude"].to_numpy()
     lons = ds["longitude"].to_numpy()
     res_lat = np.median((np.diff(lats)))  # infer resolution
-    res_lon = np.median((np.diff(lons)))
+    dlon = np.diff(lons)
+    dlon = np.where(np.abs(dlon) > 180, dlon - np.sign(dlon) * 360, dlon)  # antimeridian
+    res_lon = np.median(dlon)
 
     ds["latitude_bnds"] = (
         ("latitude", "bnds"),
-- 
2.43.0


From 3204bca15f81da2437363c45ac816b32ed4d73c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:52 +0000
Subject: [PATCH 35/38] fix: units and names of the coordinates and their
 bounds in outputs

---
 src/wam2layers/tracking/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/tracking/io.py b/src/wam2layers/tracking/io.py
index 36ac1cd..61381f8 100644
--- a/src/wam2layers/tracking/io.py
+++ b/src/wam2layers/tracking/io.py
@@ -204,10 +204,10 @@ def write_output(
     output = output.assign_coords({"time": t})
     output = output.expand_dims(dim="time")
 
-    for var in output.data_vars:
+    add_bounds(output)
+    for var in [*output.data_vars, "latitude", "longitude"]:
         output[var].attrs.update(DATA_ATTRIBUTES[str(var)])
 
-    add_bounds(output)
     add_time_bounds(output, t, t_previous)
     output.attrs = get_main_attrs(output.attrs, config)
 
-- 
2.43.0


From 7aa4ad443f7031a93468a6bd8741f388d6909727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:01 +0000
Subject: [PATCH 36/38] fix: report problems of forcing data instead of failing
 or missing them

The range check did not report values above the range, unevenly spaced
coordinates, single records, missing coordinates and non-standard calendars
raised an error, and steps of e.g. 0.1 degrees were not taken as even.
---
 src/wam2layers/analysis/checks.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/wam2layers/analysis/checks.py b/src/wam2layers/analysis/checks.py
index a5c78c1..d256d84 100644
--- a/src/wam2layers/analysis/checks.py
+++ b/src/wam2layers/analysis/checks.py
@@ -20,7 +20,8 @@ warnings.formatwarning = _warning_on_one_line
 
 def check_monotonic_increase(data, dim="level"):
     """Check if data is monotonically increasing in the given dimension."""
-    if not data.diff(dim).min() >= 0:
+    steps = data.diff(dim)
+    if not (steps >= 0 * steps).all():
         warnings.warn(
             f"Data is not monotonically increasing in the dimension {dim} for {data.name}."
         )
@@ -28,7 +29,8 @@ def check_monotonic_increase(data, dim="level"):
 
 def check_monotonic_decrease(data, dim="level"):
     """Check if data is monotonically decreasing in the given dimension."""
-    if not data.diff(dim).max() <= 0:
+    steps = data.diff(dim)
+    if not (steps <= 0 * steps).all():
         warnings.warn(
             f"Data is not monotonically decreasing in the dimension {dim} for {data.name}."
         )
@@ -80,20 +82,22 @@ def check_frequency(data, frequency):
 
 def check_shape(data, ndim):
     if data.ndim != ndim:
-        warnings.warn("Expected 3 dimensions, found {data.ndim} for {data.name}.")
+        warnings.warn(
+            f"Expected {ndim} dimensions, found {data.ndim} for {data.name}."
+        )
 
 
 def check_range(data, range):
-    if not data.min() >= range[0] and data.max() <= range[1]:
-        warnings.warn(f"Data for {data.name} is not within the range {min} to {max}.")
+    if not (data.min() >= range[0] and data.max() <= range[1]):
+        warnings.warn(
+            f"Data for {data.name} is not within the range {range[0]} to {range[1]}."
+        )
 
 
 def check_uniform(coord):
     spacing = np.diff(coord)
-    if not spacing.min() == spacing.max():
-        warnings.warn(
-            f"Coordinate spacing is not uniform for coord {coord} of {data.name}"
-        )
+    if (abs(spacing - spacing[:1]) > 1e-3 * abs(spacing[:1])).any():
+        warnings.warn(f"Coordinate spacing is not uniform for coord {coord.name}.")
 
 
 def check_coords(data, coords):
@@ -103,10 +107,10 @@ def check_coords(data, coords):
             warnings.warn(f"Data for {data.name} does not have a coordinate {coord}.")
         else:
             check_uniform(data[coord])
-        if coord == "latitude":
-            check_monotonic_decrease(data[coord], dim=coord)
-        else:
-            check_monotonic_increase(data[coord], dim=coord)
+            if coord == "latitude":
+                check_monotonic_decrease(data[coord], dim=coord)
+            else:
+                check_monotonic_increase(data[coord], dim=coord)
 
 
 def check_input(data):
-- 
2.43.0


From 51ba8d9fe540fa91415a1b647e789887bdf12211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:48 +0000
Subject: [PATCH 37/38] fix: no calendar mismatch between names of the same
 calendar

---
 src/wam2layers/utils/calendar.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/wam2layers/utils/calendar.py b/src/wam2layers/utils/calendar.py
index d7d23fa..521d1d8 100644
--- a/src/wam2layers/utils/calendar.py
+++ b/src/wam2layers/utils/calendar.py
@@ -67,8 +67,15 @@ def get_calendar_type(ds: xr.Dataset) -> str:
 
 def validate_calendar_type(config: "Config") -> None:
     file = template_to_files(config, var="ua")[0]
-    data_calendar = get_calendar_type(xr.open_dataset(file))
-    if data_calendar != config.calendar:
+    ds = xr.open_dataset(file)
+    data_calendar = get_calendar_type(ds)
+    # CF conventions: these are different names of the same calendar
+    aliases = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}
+    if not has_cftime(ds):
+        # Within the range of numpy's dates, these are the same as well
+        aliases["proleptic_gregorian"] = "standard"
+    same_as = [aliases.get(name, name) for name in (data_calendar, config.calendar)]
+    if same_as[0] != same_as[1]:
         msg = (
             "Calendar mismatch detected:\n"
             f"    The configuration file has calendar type '{config.calendar}', "
-- 
2.43.0


From c6ca0f502f672693f21c91695d4049cb572700e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:13 +0000
Subject: [PATCH 38/38] fix: all levels of ARCO-ERA5 data

---
 src/wam2layers/preprocessing/arco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wam2layers/preprocessing/arco.py b/src/wam2layers/preprocessing/arco.py
index 9f8d713..4cb7cc8 100644
--- a/src/wam2layers/preprocessing/arco.py
+++ b/src/wam2layers/preprocessing/arco.py
@@ -73,7 +73,8 @@ def get_input_data(datetime: CfDateTime, config: Config):
     ds = open_arco_pl()
     data = ds.sel(time=datetime).compute()
 
-    data = data.sel(level=config.levels)  # Only select wanted levels
+    if isinstance(config.levels, list):
+        data = data.sel(level=config.levels)  # Only select wanted levels
 
     data["qs"] = calculate_humidity(
         data["2m_dewpoint_temperature"], data["surface_pressure"]
-- 
2.43.0

