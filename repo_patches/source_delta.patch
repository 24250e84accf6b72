From 3633017f495aa6d4e113a5948b3df39809cb5a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 01/22] fix: do not lower-case the column labels of the
 caller's DataFrame

---
 tti/utils/data_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 2d61032..6ee3d5a 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -64,7 +64,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
     # Make columns case insensitive
-    input_data.columns = [c.lower() for c in input_data.columns]
+    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis=1)
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0


From 0fea0acbf66cf485d85dfbe2de680f3dc7de867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 02/22] fix: ATR and Typical Price signals use the average of
 the close prices, whatever the column order

---
 tti/indicators/_average_true_range.py | 10 +++++-----
 tti/indicators/_typical_price.py      |  8 ++++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index bf9d2d2..7f54ff9 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -104,22 +104,22 @@ class AverageTrueRange(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate Simple Moving Averages
-        sma_05 = self._input_data.rolling(window=5, min_periods=5).mean()
+        sma_05 = self._input_data["close"].rolling(window=5, min_periods=5).mean()
 
-        sma_10 = self._input_data.rolling(window=10, min_periods=5).mean()
+        sma_10 = self._input_data["close"].rolling(window=10, min_periods=5).mean()
 
         # Assumption on what high volatility means
         if self._ti_data["atr"].values[-1] > 0.01 * self._input_data["close"].values[-1]:
             # Price falling is expected or secondary rally
-            if self._input_data["close"].iat[-1] > sma_05.iat[-1, 0]:
+            if self._input_data["close"].iat[-1] > sma_05.iat[-1]:
                 # Assuming long term upward rally
-                if self._input_data["close"].iat[-1] > sma_10.iat[-1, 0]:
+                if self._input_data["close"].iat[-1] > sma_10.iat[-1]:
                     return TRADE_SIGNALS["buy"]
                 else:
                     return TRADE_SIGNALS["sell"]
 
             # Price raise is expected
-            if self._input_data["close"].iat[-1] < sma_05.iat[-1, 0]:
+            if self._input_data["close"].iat[-1] < sma_05.iat[-1]:
                 return TRADE_SIGNALS["buy"]
 
         return TRADE_SIGNALS["hold"]
diff --git a/tti/indicators/_typical_price.py b/tti/indicators/_typical_price.py
index 29bc690..477d356 100644
--- a/tti/indicators/_typical_price.py
+++ b/tti/indicators/_typical_price.py
@@ -96,10 +96,14 @@ class TypicalPrice(TechnicalIndicator):
             return TRADE_SIGNALS["hold"]
 
         # Calculate moving average of the close prices
-        ma = self._input_data.rolling(window=self._period, min_periods=self._period).mean()
+        ma = (
+            self._input_data["close"]
+            .rolling(window=self._period, min_periods=self._period)
+            .mean()
+        )
 
         # Indicator goes above Moving Average
-        if self._ti_data["tp"].iat[-1] > ma.iat[-1, 0]:
+        if self._ti_data["tp"].iat[-1] > ma.iat[-1]:
             return TRADE_SIGNALS["buy"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From b5f1216f155a1155c911cacfed637de50a7bb3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 03/22] fix: Average True Range reports the number of rows it
 needs

---
 tti/indicators/_average_true_range.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_average_true_range.py b/tti/indicators/_average_true_range.py
index 7f54ff9..5f76910 100644
--- a/tti/indicators/_average_true_range.py
+++ b/tti/indicators/_average_true_range.py
@@ -65,7 +65,7 @@ class AverageTrueRange(TechnicalIndicator):
 
         # Not enough data for the requested period
         if len(self._input_data.index) < 14:
-            raise NotEnoughInputData("Average True Range", 2, len(self._input_data.index))
+            raise NotEnoughInputData("Average True Range", 14, len(self._input_data.index))
 
         atr = pd.DataFrame(index=self._input_data.index, columns=["atr"], data=0, dtype="float64")
 
-- 
2.43.0


From 0e9b1b98bfcb093f2da6d5fc5e8d19dbf8356727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 04/22] fix: Range Indicator signal holds when no earlier value
 is below 20

---
 tti/indicators/_range_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_range_indicator.py b/tti/indicators/_range_indicator.py
index f5fa64c..e8c0ba2 100644
--- a/tti/indicators/_range_indicator.py
+++ b/tti/indicators/_range_indicator.py
@@ -189,7 +189,7 @@ class RangeIndicator(TechnicalIndicator):
                     return TRADE_SIGNALS["sell"]
                 else:
                     return TRADE_SIGNALS["buy"]
-            except KeyError:
+            except (KeyError, IndexError):
                 return TRADE_SIGNALS["hold"]
 
         return TRADE_SIGNALS["hold"]
-- 
2.43.0


From 26905f342889c6ebdd38b9415d5dfe0b0e64117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 05/22] fix: Median Price signal holds on a single row

---
 tti/indicators/_median_price.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_median_price.py b/tti/indicators/_median_price.py
index 49cf782..0a698b5 100644
--- a/tti/indicators/_median_price.py
+++ b/tti/indicators/_median_price.py
@@ -101,7 +101,7 @@ class MedianPrice(TechnicalIndicator):
         """
 
         # Not enough data for calculating trading signal
-        if len(self._ti_data.index) < self._period:
+        if len(self._ti_data.index) < max(self._period, 2):
             return TRADE_SIGNALS["hold"]
 
         # Indicator value goes below Moving Average
-- 
2.43.0


From 2c37dfdac0ee96574d502035354968ce299ec728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 06/22] fix: exponential %D of the Stochastic Oscillator is an
 exponential moving average

---
 tti/indicators/_stochastic_oscillator.py | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/tti/indicators/_stochastic_oscillator.py b/tti/indicators/_stochastic_oscillator.py
index 0865abe..5cb83a3 100644
--- a/tti/indicators/_stochastic_oscillator.py
+++ b/tti/indicators/_stochastic_oscillator.py
@@ -175,19 +175,13 @@ class StochasticOscillator(TechnicalIndicator):
         so.columns = columns_names
 
         so = round(100 * so["smoothed_numerator"] / so["smoothed_denominator"], 4)
-        so = pd.concat(
-            [
-                so,
-                so.rolling(
-                    window=self._d_periods,
-                    min_periods=self._d_periods,
-                    win_type=(None if self._d_method == "simple" else self._d_method),
-                )
-                .mean()
-                .round(4),
-            ],
-            axis=1,
-        )
+
+        if self._d_method == "simple":
+            d = so.rolling(window=self._d_periods, min_periods=self._d_periods)
+        else:
+            d = so.ewm(span=self._d_periods, min_periods=self._d_periods, adjust=False)
+
+        so = pd.concat([so, d.mean().round(4)], axis=1)
 
         so.columns = ["%K", "%D"]
 
-- 
2.43.0


From 016767677faa07bdf3f18a7a04ac9dc71fa72291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 07/22] fix: Accumulation Distribution Line truncates its
 values also when a zero-range bar exists

---
 tti/indicators/_accumulation_distribution_line.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tti/indicators/_accumulation_distribution_line.py b/tti/indicators/_accumulation_distribution_line.py
index 2f3bf3c..868c4c2 100644
--- a/tti/indicators/_accumulation_distribution_line.py
+++ b/tti/indicators/_accumulation_distribution_line.py
@@ -5,6 +5,7 @@ File name: _accumulation_distribution_line.py
     Implements the Accumulation Distribution Line technical indicator.
 """
 
+import numpy as np
 import pandas as pd
 
 from ._technical_indicator import TechnicalIndicator
@@ -69,7 +70,7 @@ class AccumulationDistributionLine(TechnicalIndicator):
             / (self._input_data["high"] - self._input_data["low"])
         )
 
-        adl = adl.cumsum(axis=0)
+        adl = np.trunc(adl.cumsum(axis=0))
 
         return adl.astype(dtype="int64", errors="ignore")
 
-- 
2.43.0


From d6244b51249641300224a39a138e27d2603df594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 08/22] fix: Relative Momentum Index is 100 when there is no
 downward move

---
 tti/indicators/_relative_momentum_index.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tti/indicators/_relative_momentum_index.py b/tti/indicators/_relative_momentum_index.py
index 1b6727e..c349366 100644
--- a/tti/indicators/_relative_momentum_index.py
+++ b/tti/indicators/_relative_momentum_index.py
@@ -138,11 +138,7 @@ class RelativeMomentumIndex(TechnicalIndicator):
             )
 
         # Calculate indicator
-        rmi["rmi"] = (
-            100
-            * (rmi["smoothed_upc"] / rmi["smoothed_dpc"])
-            / (1 + rmi["smoothed_upc"] / rmi["smoothed_dpc"])
-        )
+        rmi["rmi"] = 100 * rmi["smoothed_upc"] / (rmi["smoothed_upc"] + rmi["smoothed_dpc"])
 
         return rmi[["rmi"]].round(4)
 
-- 
2.43.0


From b968743226afbbd270c3a040ce910f809191f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 09/22] fix: Mass Index signal requires the drop below 26.5

---
 tti/indicators/_mass_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_mass_index.py b/tti/indicators/_mass_index.py
index 1c8e26b..c2832eb 100644
--- a/tti/indicators/_mass_index.py
+++ b/tti/indicators/_mass_index.py
@@ -107,7 +107,7 @@ class MassIndex(TechnicalIndicator):
         # below 26.5. Specific values for 25-Mass Index.
         reversal_bulge = False
 
-        if True or self._ti_data["mi"].iat[-1] < 26.5:
+        if self._ti_data["mi"].iat[-1] < 26.5:
             for i in range(-2, -len(self._ti_data.index) - 1, -1):
                 if self._ti_data["mi"].iat[i] < 26.5:
                     break
-- 
2.43.0


From 240393686ec572293d500942e9b3676cc1fac8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 10/22] fix: Ultimate Oscillator signal compares values with
 its thresholds

---
 tti/indicators/_ultimate_oscillator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_ultimate_oscillator.py b/tti/indicators/_ultimate_oscillator.py
index 574dce6..e2f1842 100644
--- a/tti/indicators/_ultimate_oscillator.py
+++ b/tti/indicators/_ultimate_oscillator.py
@@ -138,10 +138,10 @@ class UltimateOscillator(TechnicalIndicator):
 
         if close_low_index != uosc_low_index:
             # Check if indicator falls below 30 during the bullish period
-            if self._ti_data["uosc"].iloc[-span_period:].all() < 30:
+            if (self._ti_data["uosc"].iloc[-span_period:] < 30).any():
                 # Buy when indicator makes a highest high during this period
                 if (
-                    self._ti_data["uosc"].iloc[-span_period:-1].all()
+                    self._ti_data["uosc"].iloc[-span_period:-1].max()
                     < self._ti_data["uosc"].iat[-1]
                 ):
                     return TRADE_SIGNALS["buy"]
-- 
2.43.0


From 7f828f46d156c4631d997fa597241012b5dde233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 11/22] fix: Ichimoku Cloud position is neither above nor below
 a missing or touched cloud bound

---
 tti/indicators/_ichimoku_cloud.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tti/indicators/_ichimoku_cloud.py b/tti/indicators/_ichimoku_cloud.py
index 037b6bf..032cb13 100644
--- a/tti/indicators/_ichimoku_cloud.py
+++ b/tti/indicators/_ichimoku_cloud.py
@@ -107,10 +107,13 @@ class IchimokuCloud(TechnicalIndicator):
                 is above the cloud, -1 means that value is below the cloud.
         """
 
-        ordered_values = cloud + [value]
-        ordered_values.sort()
+        if all(value > bound for bound in cloud):
+            return 1
 
-        return ordered_values.index(value) - 1
+        if all(value < bound for bound in cloud):
+            return -1
+
+        return 0
 
     def getTiSignal(self):
         """
-- 
2.43.0


From fd930eb57ac4425c5a2cf0f1122a9ba043a69057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 12/22] fix: return a copy of the indicator values, changing it
 must not change the indicator

---
 tti/indicators/_technical_indicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index 5a87037..0025fc8 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -131,7 +131,7 @@ class TechnicalIndicator(ABC):
             pandas.DataFrame: The Technical Indicator values.
         """
 
-        return self._ti_data
+        return self._ti_data.copy()
 
     def getTiValue(self, date=None):
         """
-- 
2.43.0


From 53867b16dc358de6742953b7968010240207c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 13/22] fix: a simulation which is aborted leaves the
 indicator's data intact

---
 tti/indicators/_technical_indicator.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index 0025fc8..2597caf 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -5,6 +5,8 @@ File name: _technical_indicator.py
     Parent class for all the technical indicators.
 """
 
+import copy
+
 import pandas as pd
 import matplotlib.pyplot as plt
 from abc import ABC, abstractmethod
@@ -405,22 +407,20 @@ class TechnicalIndicator(ABC):
             short_exposure_factor=short_exposure_factor,
         )
 
-        # keep safe the full input and indicator data
+        # Use a view of this object for the simulation, keep its data untouched
+        view = copy.copy(self)
+
         full_ti_data = self._ti_data
         full_input_data = self._input_data
 
         # Run simulation rounds for the whole period
         for i in range(len(self._ti_data.index)):
             # Limit the input and indicator data to this simulation round
-            self._input_data = full_input_data[full_input_data.index <= full_input_data.index[i]]
-
-            self._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
+            view._input_data = full_input_data[full_input_data.index <= full_input_data.index[i]]
 
-            simulator.runSimulationRound(i_index=i, signal=self.getTiSignal())
+            view._ti_data = full_ti_data[full_ti_data.index <= full_ti_data.index[i]]
 
-        # Restore input and indicator data to full range
-        self._ti_data = full_ti_data
-        self._input_data = full_input_data
+            simulator.runSimulationRound(i_index=i, signal=view.getTiSignal())
 
         simulation_data, statistics = simulator.closeSimulation()
 
-- 
2.43.0


From be7670256c1ea9a40d6afebb24421c6ce0acc3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 14/22] fix: widen unsigned and narrow numeric input columns,
 their arithmetic wrapped

---
 tti/utils/data_validation.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 6ee3d5a..fa46b17 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -6,6 +6,7 @@ File name: data_validation.py
     tti.utils package.
 """
 
+import numpy as np
 import pandas as pd
 import pandas.api.types as pdtypes
 from .data_preprocessing import fillMissingValues
@@ -95,6 +96,16 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
         if column not in required_columns:
             input_data = input_data.drop(columns=column, inplace=False)
 
+    # Unsigned and narrow types overflow in the calculations, use 64 bits
+    input_data = input_data.astype(
+        {
+            column: {"i": "int64", "u": "int64", "f": "float64"}[input_data[column].dtype.kind]
+            for column in input_data.columns
+            if isinstance(input_data[column].dtype, np.dtype)
+            and input_data[column].dtype.kind in "iuf"
+        }
+    )
+
     # Sort dataframe on index ascending
     input_data = input_data.sort_index(ascending=True, inplace=False)
 
-- 
2.43.0


From 4818b64460e09ab6b7168a0325e099d9587ae6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 15/22] fix: accept additional columns with labels which are
 not strings

---
 tti/utils/data_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index fa46b17..7218b72 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -65,7 +65,9 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
         raise ValueError("The input_data cannot be an empty pandas.DataFrame.")
 
     # Make columns case insensitive
-    input_data = input_data.set_axis([c.lower() for c in input_data.columns], axis=1)
+    input_data = input_data.set_axis(
+        [c.lower() if isinstance(c, str) else c for c in input_data.columns], axis=1
+    )
 
     # Validate that the data frame holds columns of numeric type and that all
     # the required columns are contained.
-- 
2.43.0


From 06885543cd25e4b96c9262a1001b09760bb698d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 16/22] fix: report the shift, not the period, when the shift
 of Envelopes is refused

---
 tti/indicators/_envelopes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_envelopes.py b/tti/indicators/_envelopes.py
index d3026d3..3135200 100644
--- a/tti/indicators/_envelopes.py
+++ b/tti/indicators/_envelopes.py
@@ -65,9 +65,9 @@ class Envelopes(TechnicalIndicator):
             if 1.0 > shift > 0.0:
                 self._shift = shift
             else:
-                raise WrongValueForInputParameter(period, "shift", ">0.0 and <1.0")
+                raise WrongValueForInputParameter(shift, "shift", ">0.0 and <1.0")
         else:
-            raise WrongTypeForInputParameter(type(period), "shift", "float")
+            raise WrongTypeForInputParameter(type(shift), "shift", "float")
 
         # Control is passing to the parent class
         super().__init__(
-- 
2.43.0


From 8b59814f8c45ce1c7defcaefd2d7c3663e7a2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:11 +0000
Subject: [PATCH 17/22] fix: accept several additional columns which share a
 label

---
 tti/utils/data_validation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 7218b72..29ada9e 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -94,9 +94,7 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
             )
 
     # Remove not required columns, if any
-    for column in input_data.columns:
-        if column not in required_columns:
-            input_data = input_data.drop(columns=column, inplace=False)
+    input_data = input_data.loc[:, [c in required_columns for c in input_data.columns]]
 
     # Unsigned and narrow types overflow in the calculations, use 64 bits
     input_data = input_data.astype(
-- 
2.43.0


From 6249280b3b2b0f8256a3f7df99b1c127966809b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 18/22] fix: a value lookup with a collection of dates returned
 the column labels

---
 tti/indicators/_technical_indicator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tti/indicators/_technical_indicator.py b/tti/indicators/_technical_indicator.py
index 2597caf..32839e1 100644
--- a/tti/indicators/_technical_indicator.py
+++ b/tti/indicators/_technical_indicator.py
@@ -152,8 +152,14 @@ class TechnicalIndicator(ABC):
         try:
             if date is None:
                 return list(self._ti_data.iloc[-1, :])
-            else:
-                return list(self._ti_data.loc[pd.to_datetime(date), :])
+
+            timestamp = pd.to_datetime(date)
+
+            # Collections of dates are not a date
+            if not isinstance(timestamp, pd.Timestamp):
+                return None
+
+            return list(self._ti_data.loc[timestamp, :])
 
         except (Exception, ValueError):
             return None
-- 
2.43.0


From b6d248a9dc5e0df341102c2a929b86aa7b2c84bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:56 +0000
Subject: [PATCH 19/22] fix: refuse NaN as exposure limit or short exposure
 factor

---
 tti/utils/trading_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tti/utils/trading_simulation.py b/tti/utils/trading_simulation.py
index e3d30b1..3ad498b 100644
--- a/tti/utils/trading_simulation.py
+++ b/tti/utils/trading_simulation.py
@@ -260,7 +260,7 @@ class TradingSimulation:
 
         # Validate max_exposure
         if isinstance(self._max_exposure, (int, float)):
-            if self._max_exposure <= 0:
+            if not self._max_exposure > 0:
                 raise WrongValueForInputParameter(self._max_exposure, "max_exposure", ">0 or None")
         elif self._max_exposure is None:
             pass
@@ -271,7 +271,7 @@ class TradingSimulation:
 
         # Validate short_exposure_factor
         if isinstance(self._short_exposure_factor, (int, float)):
-            if self._short_exposure_factor < 1.0:
+            if not self._short_exposure_factor >= 1.0:
                 raise WrongValueForInputParameter(
                     self._short_exposure_factor, "short_exposure_factor", ">=1.0"
                 )
-- 
2.43.0


From b303b5c53abb8a35b9f2af769bbb9d60cdad136b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:13 +0000
Subject: [PATCH 20/22] fix: convert nullable and sparse numeric columns to
 plain ones

Tables with such columns were accepted, but several indicators then failed
with a TypeError or AttributeError in the calculation or in the signal.
---
 tti/utils/data_validation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index 29ada9e..d07468f 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -96,13 +96,15 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
     # Remove not required columns, if any
     input_data = input_data.loc[:, [c in required_columns for c in input_data.columns]]
 
-    # Unsigned and narrow types overflow in the calculations, use 64 bits
+    # Unsigned and narrow types overflow in the calculations, use 64 bits. The
+    # calculations expect plain columns, convert nullable and sparse ones.
     input_data = input_data.astype(
         {
             column: {"i": "int64", "u": "int64", "f": "float64"}[input_data[column].dtype.kind]
-            for column in input_data.columns
             if isinstance(input_data[column].dtype, np.dtype)
-            and input_data[column].dtype.kind in "iuf"
+            else "float64"
+            for column in input_data.columns
+            if input_data[column].dtype.kind in "iuf"
         }
     )
 
-- 
2.43.0


From 94b721f422763b8d7dd6c86b114e84e134905629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 21/22] fix: compare the dates of the close prices by value in
 a simulation

Close prices covering exactly the indicator's dates were refused when their
index had another resolution (for example seconds instead of nanoseconds).
---
 tti/utils/trading_simulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tti/utils/trading_simulation.py b/tti/utils/trading_simulation.py
index 3ad498b..f70c381 100644
--- a/tti/utils/trading_simulation.py
+++ b/tti/utils/trading_simulation.py
@@ -249,7 +249,10 @@ class TradingSimulation:
                 "close_values", str(e).replace("input_data", "close_values")
             )
 
-        if not self._close_values.index.equals(self._input_data_index):
+        if (
+            len(self._close_values.index) != len(self._input_data_index)
+            or not (self._close_values.index == self._input_data_index).all()
+        ):
             raise NotValidInputDataForSimulation(
                 "close_values",
                 "Index of the `close_values` DataFrame "
-- 
2.43.0


From bb724b1fa0bb5d10649aee64db2befb13584f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 22/22] fix: refuse a required column given more than once with
 ValueError

Columns which differ only in letter case (for example close and CLOSE) caused
an AttributeError instead of the documented ValueError.
---
 tti/utils/data_validation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tti/utils/data_validation.py b/tti/utils/data_validation.py
index d07468f..5cd39d6 100644
--- a/tti/utils/data_validation.py
+++ b/tti/utils/data_validation.py
@@ -83,6 +83,16 @@ def validateInputData(input_data, required_columns, indicator_name, fill_missing
                 + "pandas.DataFrame."
             )
 
+        if list(input_data.columns).count(column) > 1:
+            raise ValueError(
+                "Required column `"
+                + column
+                + "` for the "
+                + "technical indicator `"
+                + indicator_name
+                + "` exists more than once in the input_data pandas.DataFrame."
+            )
+
         if not pdtypes.is_numeric_dtype(input_data[column]):
             raise ValueError(
                 "The input_data pandas.DataFrame must hold "
-- 
2.43.0

