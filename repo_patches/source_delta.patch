From d17ae98d25b2ff64ffaec6048e6fbac20c36db15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 01/22] fix: do not rename the columns of the caller's
 DataFrame

---
 tti/utils/data_validation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 2d61032..6210461 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -63,8 +63,9 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     if input_data.empty:
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
-    # Make columns case insensitive
-    input_data.columns = [c.lower() for c in input_data.columns]
+    # Make columns case insensitive, work on a new object so to not rename the
+    # columns of the caller's DataFrame
+    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis=1)
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0


From 828fb30728b85cc16b02a9373390a13a5ad389e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 02/22] fix: accept (and ignore) additional columns with non
 string labels

---
 tti/utils/data_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 6210461..5e12c89 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -65,7 +65,9 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
 
     # Make columns case insensitive, work on a new object so to not rename the
     # columns of the caller's DataFrame
-    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis=1)
+    input_data = input_data.set_axis(
+        [c.lower() if isinstance(c, str) else c for c in input_data.columns], axis=1
+    )
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0


From ce2073e5b8a7bcfedee3cb713398eb3ce6d495ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 03/22] fix: Average True Range signal uses the close prices
 for any columns order

---
 tti/indicators/_average_true_range.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index bf9d2d2..6971e5d 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -104,9 +104,9 @@ class AverageTrueRange(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate Simple Moving Averages
-        sma_05 = self._input_data.rolling(window=5, min_periods=5).mean()
+        sma_05 = self._input_data[["close"]].rolling(window=5, min_periods=5).mean()
 
-        sma_10 = self._input_data.rolling(window=10, min_periods=5).mean()
+        sma_10 = self._input_data[["close"]].rolling(window=10, min_periods=5).mean()
 
         # Assumption on what high volatility means
         if self._ti_data["atr"].values[-1] > 0.01 * self._input_data["close"].values[-1]:
-- 
2.43.0


From aeab9fb9212d1daf72adefe92b5c2dd5c1949c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 04/22] fix: Typical Price signal uses the close prices for any
 columns order

---
 tti/indicators/_typical_price.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_typical_price.py b/tti/indicators/_typical_price.py
index 29bc690..f849e7d 100644
--- a/tti/indicators/_typical_price.py
+++ b/tti/indicators/_typical_price.py
@@ -96,7 +96,11 @@ class TypicalPrice(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate moving average of the close prices
-        ma = self._input_data.rolling(window=self._period, min_periods=self._period).mean()
+        ma = (
+            self._input_data[["close"]]
+            .rolling(window=self._period, min_periods=self._period)
+            .mean()
+        )
 
         # Indicator goes above Moving Average
         if self._ti_data["tp"].iat[-1] > ma.iat[-1, 0]:
-- 
2.43.0


From 3bfb90bc7324ecab542c6b7285f5054c233006ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 05/22] fix: Median Price signal does not raise when only one
 row exists

---
 tti/indicators/_median_price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_median_price.py b/tti/indicators/_median_price.py
index 49cf782..0a698b5 100644
--- a/tti/indicators/_median_price.py
+++ b/tti/indicators/_median_price.py
@@ -101,7 +101,7 @@ class MedianPrice(TechnicalIndicator):
         """
 
         # Not enough data for calculating trading signal
-        if len(self._ti_data.index) < self._period:
+        if len(self._ti_data.index) < max(self._period, 2):
             return TRADE_SIGNALS["hold"]
 
         # Indicator value goes below Moving Average
-- 
2.43.0


From d0b815df23a6957da4f67ea3bde5cffe50908fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 06/22] fix: Range Indicator signal does not raise when a trend
 start is missing

---
 tti/indicators/_range_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_range_indicator.py b/tti/indicators/_range_indicator.py
index f5fa64c..e8c0ba2 100644
--- a/tti/indicators/_range_indicator.py
+++ b/tti/indicators/_range_indicator.py
@@ -189,7 +189,7 @@ class RangeIndicator(TechnicalIndicator):
                     return TRADE_SIGNALS["sell"]
                 else:
                     return TRADE_SIGNALS["buy"]
-            except KeyError:
+            except (KeyError, IndexError):
                 return TRADE_SIGNALS["hold"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From 4e6718ed3a1cf8c0fce6da65b5493f7b7a035f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 07/22] fix: Average True Range reports the actual minimum
 required data

---
 tti/indicators/_average_true_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index 6971e5d..4f60bb0 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -65,7 +65,7 @@ class AverageTrueRange(TechnicalIndicator):
 
         # Not enough data for the requested period
         if len(self._input_data.index) < 14:
-            raise NotEnoughInputData("Average True Range", 2, len(self._input_data.index))
+            raise NotEnoughInputData("Average True Range", 14, len(self._input_data.index))
 
         atr = pd.DataFrame(index=self._input_data.index, columns=["atr"], data=0, dtype="float64")
 
-- 
2.43.0


From e3f301f2a31b922366410f1f340de7f02886cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 08/22] fix: Envelopes exceptions report the shift argument

---
 tti/indicators/_envelopes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_envelopes.py b/tti/indicators/_envelopes.py
index d3026d3..3135200 100644
--- a/tti/indicators/_envelopes.py
+++ b/tti/indicators/_envelopes.py
@@ -65,9 +65,9 @@ class Envelopes(TechnicalIndicator):
             if 1.0 > shift > 0.0:
                 self._shift = shift
             else:
-                raise WrongValueForInputParameter(period, "shift", ">0.0 and <1.0")
+                raise WrongValueForInputParameter(shift, "shift", ">0.0 and <1.0")
         else:
-            raise WrongTypeForInputParameter(type(period), "shift", "float")
+            raise WrongTypeForInputParameter(type(shift), "shift", "float")
 
         # Control is passing to the parent class
         super().__init__(
-- 
2.43.0


From a1fa3a10527852e62ba1064bab78051769118b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 09/22] fix: Ichimoku Cloud does not signal when the cloud is
 not defined

---
 tti/indicators/_ichimoku_cloud.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 037b6bf..534600c 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -126,6 +126,10 @@ class IchimokuCloud(TechnicalIndicator):
         if len(self._ti_data.index) < 2:
             return TRADE_SIGNALS["hold"]
 
+        # Cloud is not defined yet
+        if self._ti_data[["senkou_a", "senkou_b"]].iloc[-1].isna().any():
+            return TRADE_SIGNALS["hold"]
+
         # If 3 all 'close', 'tenkan_sen' and 'kijun_sen' are above the cloud
         # if -3 all 'close', 'tenkan_sen' and 'kijun_sen' are below the cloud
         position_in_cloud = (
-- 
2.43.0


From b1e8d04bd749dc3bebfddba61b4aadba9d2e3c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 10/22] fix: Relative Momentum Index is 100 when there is no
 downward change

---
 tti/indicators/_relative_momentum_index.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tti/indicators/_relative_momentum_index.py b/tti/indicators/_relative_momentum_index.py
index 1b6727e..bca9cb5 100644
--- a/tti/indicators/_relative_momentum_index.py
+++ b/tti/indicators/_relative_momentum_index.py
@@ -139,9 +139,7 @@ class RelativeMomentumIndex(TechnicalIndicator):
 
         # Calculate indicator
         rmi["rmi"] = (
-            100
-            * (rmi["smoothed_upc"] / rmi["smoothed_dpc"])
-            / (1 + rmi["smoothed_upc"] / rmi["smoothed_dpc"])
+            100 * rmi["smoothed_upc"] / (rmi["smoothed_upc"] + rmi["smoothed_dpc"])
         )
 
         return rmi[["rmi"]].round(4)
-- 
2.43.0


From b8992c27f90854767450e560a0c96697b4469c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 11/22] fix: Mass Index reversal bulge requires a drop below
 26.5

---
 tti/indicators/_mass_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_mass_index.py b/tti/indicators/_mass_index.py
index 1c8e26b..c2832eb 100644
--- a/tti/indicators/_mass_index.py
+++ b/tti/indicators/_mass_index.py
@@ -107,7 +107,7 @@ class MassIndex(TechnicalIndicator):
         # below 26.5. Specific values for 25-Mass Index.
         reversal_bulge = False
 
-        if True or self._ti_data["mi"].iat[-1] < 26.5:
+        if self._ti_data["mi"].iat[-1] < 26.5:
             for i in range(-2, -len(self._ti_data.index) - 1, -1):
                 if self._ti_data["mi"].iat[i] < 26.5:
                     break
-- 
2.43.0


From 17c07703e7f099f160b6315d944fb20fa854a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 12/22] fix: Ultimate Oscillator signal compares the
 indicator's values

---
 tti/indicators/_ultimate_oscillator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_ultimate_oscillator.py b/tti/indicators/_ultimate_oscillator.py
index 574dce6..e2f1842 100644
--- a/tti/indicators/_ultimate_oscillator.py
+++ b/tti/indicators/_ultimate_oscillator.py
@@ -138,10 +138,10 @@ class UltimateOscillator(TechnicalIndicator):
 
         if close_low_index != uosc_low_index:
             # Check if indicator falls below 30 during the bullish period
-            if self._ti_data["uosc"].iloc[-span_period:].all() < 30:
+            if (self._ti_data["uosc"].iloc[-span_period:] < 30).any():
                 # Buy when indicator makes a highest high during this period
                 if (
-                    self._ti_data["uosc"].iloc[-span_period:-1].all()
+                    self._ti_data["uosc"].iloc[-span_period:-1].max()
                     < self._ti_data["uosc"].iat[-1]
                 ):
                     return TRADE_SIGNALS["buy"]
-- 
2.43.0


From 7331c8b35f94d60624c6fb0e4af11f584153362e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 13/22] fix: Stochastic Oscillator exponential %D is an
 exponential moving average

---
 tti/indicators/_stochastic_oscillator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tti/indicators/_stochastic_oscillator.py b/tti/indicators/_stochastic_oscillator.py
index 0865abe..9713204 100644
--- a/tti/indicators/_stochastic_oscillator.py
+++ b/tti/indicators/_stochastic_oscillator.py
@@ -178,10 +178,10 @@ class StochasticOscillator(TechnicalIndicator):
         so = pd.concat(
             [
                 so,
-                so.rolling(
-                    window=self._d_periods,
-                    min_periods=self._d_periods,
-                    win_type=(None if self._d_method == "simple" else self._d_method),
+                (
+                    so.rolling(window=self._d_periods, min_periods=self._d_periods)
+                    if self._d_method == "simple"
+                    else so.ewm(span=self._d_periods, min_periods=self._d_periods, adjust=False)
                 )
                 .mean()
                 .round(4),
-- 
2.43.0


From 48c6f1c9f164fe5ee5d95d5da643f81bf7f47818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 14/22] fix: restore the indicator's data when a trading
 simulation is interrupted

---
 tti/indicators/_technical_indicator.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index 5a87037..dc4b6fe 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -410,17 +410,22 @@ class TechnicalIndicator(ABC):
         full_input_data = self._input_data
 
         # Run simulation rounds for the whole period
-        for i in range(len(self._ti_data.index)):
-            # Limit the input and indicator data to this simulation round
-            self._input_data = full_input_data[full_input_data.index <= full_input_data.index[i]]
+        try:
+            for i in range(len(full_ti_data.index)):
+                # Limit the input and indicator data to this simulation round
+                self._input_data = full_input_data[
+                    full_input_data.index <= full_input_data.index[i]
+                ]
 
-            self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
+                self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
 
-            simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
+                simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
 
-        # Restore input and indicator data to full range
-        self._ti_data = full_ti_data
-        self._input_data = full_input_data
+        finally:
+            # Restore input and indicator data to full range, also in case the
+            # simulation is interrupted
+            self._ti_data = full_ti_data
+            self._input_data = full_input_data
 
         simulation_data, statistics = simulator.closeSimulation()
 
-- 
2.43.0


From d6c37f1a2814102014e679408579492c34410f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 15/22] fix: variable Moving Average recovers after periods
 without price changes

---
 tti/indicators/_moving_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_moving_average.py b/tti/indicators/_moving_average.py
index ae12bfe..74784e4 100644
--- a/tti/indicators/_moving_average.py
+++ b/tti/indicators/_moving_average.py
@@ -160,7 +160,7 @@ class MovingAverage(TechnicalIndicator):
             cmo = ChandeMomentumOscillator(input_data=self._input_data, period=9).getTiData()
 
             # Calculate Volatility Ratio
-            vr = (cmo.iloc[:] / 100).abs()
+            vr = (cmo.iloc[:] / 100).abs().fillna(0.0)
 
             # Calculate Scaling Multiplier
             sm = 2 / (self._period + 1)
-- 
2.43.0


From 98e0ceac4e15476694d99a4cddbb8ac6b86479a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 16/22] fix: Directional Movement Index recovers after periods
 without movement

---
 tti/indicators/_directional_movement_index.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_directional_movement_index.py b/tti/indicators/_directional_movement_index.py
index 247e279..d455a71 100644
--- a/tti/indicators/_directional_movement_index.py
+++ b/tti/indicators/_directional_movement_index.py
@@ -170,8 +170,11 @@ class DirectionalMovementIndex(TechnicalIndicator):
 
         dmi.loc[dmi.index[27], "adx"] = dmi["dx"].iloc[:28].sum() / 14
 
+        # DX is not defined when there is no directional movement
+        dx = dmi["dx"].fillna(0.0)
+
         for i in range(28, len(dmi.index)):
-            dmi["adx"].values[i] = ((13 * dmi["adx"].values[i - 1]) + dmi["dx"].values[i]) / 14
+            dmi["adx"].values[i] = ((13 * dmi["adx"].values[i - 1]) + dx.values[i]) / 14
 
         for i in range(40, len(dmi.index)):
             dmi["adxr"].values[i] = (dmi["adx"].values[i] + dmi["adx"].values[i - 13]) / 2.0
-- 
2.43.0


From d12b7ac64d97cd8a61a075bb935a656450210b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 17/22] fix: Accumulation Distribution Line is whole numbers
 also with undefined rows

---
 tti/indicators/_accumulation_distribution_line.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_accumulation_distribution_line.py b/tti/indicators/_accumulation_distribution_line.py
index 2f3bf3c..12dd7d0 100644
--- a/tti/indicators/_accumulation_distribution_line.py
+++ b/tti/indicators/_accumulation_distribution_line.py
@@ -5,6 +5,7 @@ File name: _accumulation_distribution_line.py
     Implements the Accumulation Distribution Line technical indicator.
 """
 
+import numpy as np
 import pandas as pd
 
 from ._technical_indicator import TechnicalIndicator
@@ -69,7 +70,8 @@ class AccumulationDistributionLine(TechnicalIndicator):
             / (self._input_data["high"] - self._input_data["low"])
         )
 
-        adl = adl.cumsum(axis=0)
+        # Whole numbers, also when undefined values exist in the period
+        adl = np.trunc(adl.cumsum(axis=0))
 
         return adl.astype(dtype="int64", errors="ignore")
 
-- 
2.43.0


From aa660bae25f633459c89c686c730059ff5eed2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:43 +0000
Subject: [PATCH 18/22] fix: IchimokuCloud no longer counts a value on the
 lower bound of the cloud as below it

---
 tti/indicators/_ichimoku_cloud.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 534600c..3d0cfbc 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -107,10 +107,13 @@ class IchimokuCloud(TechnicalIndicator):
                 is above the cloud, -1 means that value is below the cloud.
         """
 
-        ordered_values = cloud + [value]
-        ordered_values.sort()
+        if value > max(cloud):
+            return 1
 
-        return ordered_values.index(value) - 1
+        if value < min(cloud):
+            return -1
+
+        return 0
 
     def getTiSignal(self):
         """
-- 
2.43.0


From 549b3867d3a1050abe29d2925c5fc8a667de5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:10 +0000
Subject: [PATCH 19/22] fix: indicators calculated through others leave gaps
 alone when fill_missing_values is False

---
 tti/indicators/_chaikin_oscillator.py    |  4 +++-
 tti/indicators/_forecast_oscillator.py   |  4 +++-
 tti/indicators/_moving_average.py        | 12 +++++++++---
 tti/indicators/_projection_oscillator.py |  2 +-
 tti/indicators/_time_series_forecast.py  |  8 ++++++--
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/tti/indicators/_chaikin_oscillator.py b/tti/indicators/_chaikin_oscillator.py
index 29bab19..d317654 100644
--- a/tti/indicators/_chaikin_oscillator.py
+++ b/tti/indicators/_chaikin_oscillator.py
@@ -70,7 +70,9 @@ class ChaikinOscillator(TechnicalIndicator):
 
         co = pd.DataFrame(index=self._input_data.index, columns=["co"], data=0, dtype="float64")
 
-        adl = AccumulationDistributionLine(self._input_data).getTiData()
+        adl = AccumulationDistributionLine(
+            self._input_data, fill_missing_values=False
+        ).getTiData()
 
         co["co"] = (
             adl.ewm(span=3, min_periods=3, adjust=False).mean()
diff --git a/tti/indicators/_forecast_oscillator.py b/tti/indicators/_forecast_oscillator.py
index c3d8ded..965f321 100644
--- a/tti/indicators/_forecast_oscillator.py
+++ b/tti/indicators/_forecast_oscillator.py
@@ -93,7 +93,9 @@ class ForecastOscillator(TechnicalIndicator):
             100
             * (
                 self._input_data["close"]
-                - TimeSeriesForecast(input_data=self._input_data, period=self._period)
+                - TimeSeriesForecast(
+                    input_data=self._input_data, period=self._period, fill_missing_values=False
+                )
                 .getTiData()["tsf"]
                 .shift(1)
             )
diff --git a/tti/indicators/_moving_average.py b/tti/indicators/_moving_average.py
index 74784e4..95ba309 100644
--- a/tti/indicators/_moving_average.py
+++ b/tti/indicators/_moving_average.py
@@ -134,10 +134,14 @@ class MovingAverage(TechnicalIndicator):
                 pd.concat(
                     objs=[
                         LinearRegressionSlope(
-                            input_data=self._input_data, period=self._period
+                            input_data=self._input_data,
+                            period=self._period,
+                            fill_missing_values=False,
                         ).getTiData(),
                         LinearRegressionIndicator(
-                            input_data=self._input_data, period=self._period
+                            input_data=self._input_data,
+                            period=self._period,
+                            fill_missing_values=False,
                         ).getTiData(),
                     ],
                     axis=1,
@@ -157,7 +161,9 @@ class MovingAverage(TechnicalIndicator):
 
         elif self._ma_type == "variable":
             # Calculate CMO indicator for 9 periods by default
-            cmo = ChandeMomentumOscillator(input_data=self._input_data, period=9).getTiData()
+            cmo = ChandeMomentumOscillator(
+                input_data=self._input_data, period=9, fill_missing_values=False
+            ).getTiData()
 
             # Calculate Volatility Ratio
             vr = (cmo.iloc[:] / 100).abs().fillna(0.0)
diff --git a/tti/indicators/_projection_oscillator.py b/tti/indicators/_projection_oscillator.py
index 849fccd..3661559 100644
--- a/tti/indicators/_projection_oscillator.py
+++ b/tti/indicators/_projection_oscillator.py
@@ -90,7 +90,7 @@ class ProjectionOscillator(TechnicalIndicator):
 
         # Calculate Projection Bands
         projection_bands = ProjectionBands(
-            input_data=self._input_data, period=self._period
+            input_data=self._input_data, period=self._period, fill_missing_values=False
         ).getTiData()
 
         posc = pd.DataFrame(
diff --git a/tti/indicators/_time_series_forecast.py b/tti/indicators/_time_series_forecast.py
index aa932a4..0906158 100644
--- a/tti/indicators/_time_series_forecast.py
+++ b/tti/indicators/_time_series_forecast.py
@@ -94,10 +94,14 @@ class TimeSeriesForecast(TechnicalIndicator):
             pd.concat(
                 objs=[
                     LinearRegressionSlope(
-                        input_data=self._input_data, period=self._period
+                        input_data=self._input_data,
+                        period=self._period,
+                        fill_missing_values=False,
                     ).getTiData(),
                     LinearRegressionIndicator(
-                        input_data=self._input_data, period=self._period
+                        input_data=self._input_data,
+                        period=self._period,
+                        fill_missing_values=False,
                     ).getTiData(),
                 ],
                 axis=1,
-- 
2.43.0


From 0f85538ad656ce4fc9f96b614662a7cbc40845e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:14 +0000
Subject: [PATCH 20/22] fix: regression indicators no longer count a missing
 price as zero

---
 tti/indicators/_linear_regression_indicator.py | 4 ++++
 tti/indicators/_moving_average.py              | 2 +-
 tti/indicators/_projection_bands.py            | 5 +++++
 tti/indicators/_time_series_forecast.py        | 2 +-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_linear_regression_indicator.py b/tti/indicators/_linear_regression_indicator.py
index 08b6cd8..d23faa6 100644
--- a/tti/indicators/_linear_regression_indicator.py
+++ b/tti/indicators/_linear_regression_indicator.py
@@ -101,6 +101,10 @@ class LinearRegressionIndicator(TechnicalIndicator):
         for i in range(len(self._input_data.index)):
             lri["lri"].values[i] = round(rolling_ols.params[i][0] + i * rolling_ols.params[i][1], 4)
 
+        # No regression line for the periods in which a price is missing
+        missing = self._input_data["close"].isna().rolling(window=self._period).sum() > 0
+        lri.loc[missing, "lri"] = float("nan")
+
         return lri
 
     def getTiSignal(self):
diff --git a/tti/indicators/_moving_average.py b/tti/indicators/_moving_average.py
index 95ba309..147bf25 100644
--- a/tti/indicators/_moving_average.py
+++ b/tti/indicators/_moving_average.py
@@ -146,7 +146,7 @@ class MovingAverage(TechnicalIndicator):
                     ],
                     axis=1,
                 )
-                .sum(axis=1)
+                .sum(axis=1, skipna=False)
                 .iloc[self._period - 1 :]
             )
 
diff --git a/tti/indicators/_projection_bands.py b/tti/indicators/_projection_bands.py
index f49c7fe..43c5b76 100644
--- a/tti/indicators/_projection_bands.py
+++ b/tti/indicators/_projection_bands.py
@@ -135,6 +135,11 @@ class ProjectionBands(TechnicalIndicator):
                 ]
             )
 
+        # No projection for the periods in which a price is missing
+        missing = self._input_data[["high", "low"]].isna().rolling(window=self._period).sum() > 0
+        pbs.loc[missing["high"], "upper_band"] = float("nan")
+        pbs.loc[missing["low"], "lower_band"] = float("nan")
+
         return pbs.round(4)
 
     def getTiSignal(self):
diff --git a/tti/indicators/_time_series_forecast.py b/tti/indicators/_time_series_forecast.py
index 0906158..cd952bb 100644
--- a/tti/indicators/_time_series_forecast.py
+++ b/tti/indicators/_time_series_forecast.py
@@ -106,7 +106,7 @@ class TimeSeriesForecast(TechnicalIndicator):
                 ],
                 axis=1,
             )
-            .sum(axis=1)
+            .sum(axis=1, skipna=False)
             .iloc[self._period - 1 :]
         )
 
-- 
2.43.0


From 27f814f1c14877718a6c2e668c2858789eebd7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 21/22] fix: Williams Accumulation Distribution holds when its
 current value is missing

---
 tti/indicators/_williams_accumulation_distribution.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tti/indicators/_williams_accumulation_distribution.py b/tti/indicators/_williams_accumulation_distribution.py
index 256c830..de93811 100644
--- a/tti/indicators/_williams_accumulation_distribution.py
+++ b/tti/indicators/_williams_accumulation_distribution.py
@@ -102,6 +102,10 @@ class WilliamsAccumulationDistribution(TechnicalIndicator):
         if len(self._input_data.index) < span_period:
             return TRADE_SIGNALS["hold"]
 
+        # No divergence without a value for the current day
+        if self._ti_data["wad"].iloc[-1:].isna().any():
+            return TRADE_SIGNALS["hold"]
+
         if (
             self._input_data["close"].iloc[-span_period:].min() == self._input_data["close"].iat[-1]
         ) and (self._ti_data["wad"].iloc[-span_period:].min() != self._ti_data["wad"].iat[-1]):
-- 
2.43.0


From ab90d965ec0059b6056c5dd648f272d47015d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:22 +0000
Subject: [PATCH 22/22] fix: bars with a missing price have no typical price,
 it is not summed up as zero

With fill_missing_values=False Commodity Channel Index and Klinger Oscillator
added up the prices of a bar counting a missing one as zero, Typical Price
averaged the remaining ones.
---
 tti/indicators/_commodity_channel_index.py | 2 +-
 tti/indicators/_klinger_oscillator.py      | 4 ++--
 tti/indicators/_typical_price.py           | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tti/indicators/_commodity_channel_index.py b/tti/indicators/_commodity_channel_index.py
index 6a70caa..3a87ec8 100644
--- a/tti/indicators/_commodity_channel_index.py
+++ b/tti/indicators/_commodity_channel_index.py
@@ -88,7 +88,7 @@ class CommodityChannelIndex(TechnicalIndicator):
         cci = pd.DataFrame(index=self._input_data.index, columns=["cci"], data=0, dtype="float64")
 
         # Average of high, low and close
-        typical_price = self._input_data.sum(axis=1) / 3.0
+        typical_price = self._input_data.sum(axis=1, skipna=False) / 3.0
 
         # Simple moving average of the typical price
         tp_sma = typical_price.rolling(window=self._period, min_periods=self._period).mean()
diff --git a/tti/indicators/_klinger_oscillator.py b/tti/indicators/_klinger_oscillator.py
index 2d24975..865b766 100644
--- a/tti/indicators/_klinger_oscillator.py
+++ b/tti/indicators/_klinger_oscillator.py
@@ -70,9 +70,9 @@ class KlingerOscillator(TechnicalIndicator):
         ko = pd.DataFrame(index=self._input_data.index, columns=["ko"], data=None, dtype="float64")
 
         # Trend Direction
-        t = self._input_data[["high", "low", "close"]].sum(axis=1) - self._input_data[
+        t = self._input_data[["high", "low", "close"]].sum(axis=1, skipna=False) - self._input_data[
             ["high", "low", "close"]
-        ].sum(axis=1).shift(1)
+        ].sum(axis=1, skipna=False).shift(1)
         t[t > 0.0] = 1.0
         t[t <= 0.0] = -1.0
 
diff --git a/tti/indicators/_typical_price.py b/tti/indicators/_typical_price.py
index f849e7d..4416f1f 100644
--- a/tti/indicators/_typical_price.py
+++ b/tti/indicators/_typical_price.py
@@ -75,7 +75,7 @@ class TypicalPrice(TechnicalIndicator):
         tp = pd.DataFrame(
             index=self._input_data.index,
             columns=["tp"],
-            data=self._input_data.mean(axis=1),
+            data=self._input_data.mean(axis=1, skipna=False),
             dtype="float64",
         )
 
-- 
2.43.0

