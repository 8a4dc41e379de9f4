From 4a73357fee620fe28905475c9b8016728d8417cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 01/85] fix: residual quantiles when conditional_to_hour is
 False

---
 pyforecaster/forecaster.py                                | 8 ++++++--
 pyforecaster/forecasting_models/gradientboosters.py       | 2 +-
 pyforecaster/forecasting_models/neural_models/INN.py      | 2 +-
 pyforecaster/forecasting_models/neural_models/base_nn.py  | 2 +-
 .../forecasting_models/random_fourier_features.py         | 4 ++--
 5 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index b579883..f05a023 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -208,6 +208,10 @@ class ScenarioGenerator(BaseEstimator):
             return err_distr
         return np.quantile(errs, self.q_vect, axis=0).T
 
+    def _err_distr_at(self, h):
+        """Residual quantiles to be applied at hour ``h`` (a single table if not ``conditional_to_hour``)."""
+        return self.err_distr[h] if self.conditional_to_hour else self.err_distr
+
     def fit(self, x:pd.DataFrame, y:pd.DataFrame):
         y = self.anti_transform(x, y)
         self.target_cols = y.columns
@@ -351,7 +355,7 @@ class LinearForecaster(ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at(h), 0)
         return preds
 
 
@@ -409,7 +413,7 @@ class LGBForecaster(ScenarioGenerator):
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at(h), 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 434bedb..1e16bf8 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -168,7 +168,7 @@ class LGBMHybrid(ScenarioGenerator):
     def _predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at(h), 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 375d32d..fad2272 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -226,7 +226,7 @@ class CausalInvertibleNN(NN):
     def predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at(h), 0)
         return preds
 
 
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 33089ee..dc35e97 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -502,7 +502,7 @@ class NN(ScenarioGenerator):
         else:
             preds = np.expand_dims(self.predict(inputs), -1) * np.ones((1, 1, len(self.q_vect)))
             for h in np.unique(inputs.index.hour):
-                preds[inputs.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+                preds[inputs.index.hour == h, :, :] += np.expand_dims(self._err_distr_at(h), 0)
         return preds
 
     def get_normalized_inputs(self, inputs, target=None):
diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 487da6d..146b539 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -354,7 +354,7 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at(h), 0)
         return preds
 
 
@@ -395,5 +395,5 @@ class AdditiveRFFRegression(ScenarioGenerator):
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
         for h in np.unique(x.index.hour):
-            preds[x.index.hour == h, :, :] += np.expand_dims(self.err_distr[h], 0)
+            preds[x.index.hour == h, :, :] += np.expand_dims(self._err_distr_at(h), 0)
         return preds
\ No newline at end of file
-- 
2.43.0


From 436185a2adcb6508c2b1271b8c97c98c319b51fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:11 +0000
Subject: [PATCH 02/85] fix: QRF quantile frames are target-major when
 converted to tensors

---
 pyforecaster/forecasting_models/randomforests.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 59b57d5..a1a2dea 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -183,14 +183,6 @@ class QRF(ScenarioGenerator):
                                                         period=period, keep_last_n_lags=keep_last_n_lags, keep_last_seconds=keep_last_seconds,
                                                         tol_period=tol_period)
 
-    @staticmethod
-    def quantiles_to_numpy(q_hat: pd.DataFrame):
-        n_taus = len(q_hat.columns.get_level_values(1).unique())
-        q_hat = q_hat.values
-        q_hat = np.reshape(q_hat, (q_hat.shape[0], n_taus, -1))
-        q_hat = np.swapaxes(q_hat, 1, 2)
-        return q_hat
-
     def predict_quantiles(self, x, dataframe=True, **kwargs):
         preds = self.predict(x, quantiles=list(kwargs['quantiles']) if 'quantiles' in kwargs else self.q_vect)
         if dataframe is False:
-- 
2.43.0


From 43fbe7ad5e14e8353e69bf0f2c6dd6a026c8d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 03/85] fix: QRF single-target / single-row predictions keep
 their (row, target, level) layout

---
 pyforecaster/forecasting_models/randomforests.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index a1a2dea..867e029 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -141,14 +141,14 @@ class QRF(ScenarioGenerator):
         preds = np.dstack(preds)
         if 'quantiles' in kwargs:
             if str(kwargs['quantiles']) == 'mean':
-                preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+                preds = pd.DataFrame(preds[:, 0, :], index=x.index, columns=self.target_cols)
             else:
                 if len(preds.shape) == 2:
                     preds = np.expand_dims(preds, 0)
                 preds = np.swapaxes(preds, 1, 2)
                 preds = self.quantiles_to_df(preds, index=x.index, q_vect=kwargs['quantiles'])
         else:
-            preds = pd.DataFrame(np.atleast_2d(np.squeeze(preds)), index=x.index, columns=self.target_cols)
+            preds = pd.DataFrame(preds[:, 0, :], index=x.index, columns=self.target_cols)
         y_hat = self.anti_transform(x, preds)
         return y_hat
 
@@ -164,12 +164,10 @@ class QRF(ScenarioGenerator):
 
     def predict_multi_step(self, x, quantiles='mean'):
         preds = self.multi_step_model.predict(x, quantiles)
-        if len(preds.shape) == 1:
-            preds = np.expand_dims(preds, 1)
-        if len(preds.shape) == 2:
-            preds = np.expand_dims(preds, 1)
-        else:
-            preds = np.swapaxes(preds, 1, 2)
+        # the forest squeezes single targets and single quantiles: restore (sample, target, quantile)
+        n_quantiles = 1 if isinstance(quantiles, str) else len(quantiles)
+        preds = np.reshape(preds, (len(x), self.n_multistep, n_quantiles))
+        preds = np.swapaxes(preds, 1, 2)
         return preds
 
     @staticmethod
-- 
2.43.0


From 10d42ab8fd38e31d69e7d7ccb26bdc5a7ee02ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:07 +0000
Subject: [PATCH 04/85] fix: metadata of binned transforms follows the order of
 the generated columns

---
 pyforecaster/formatter.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a2048fb..a2ac75c 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -822,21 +822,17 @@ class Transformer:
                 metadata_n['start_time'] = - spacing_time * lags_aux - agg_steps * dt + dt
                 metadata_n['end_time'] = - spacing_time * lags_aux + dt
             else:
-                lags_expanded = np.outer(lag_steps, np.ones(len(self.agg_bins) - 1)).ravel()
-                lags_and_fun =product(function_names, lags_expanded)
+                # same order as the columns: lags first, then (bins, functions) if nested or (functions, bins) otherwise
+                n_bins = np.arange(len(self.agg_bins) - 1)
+                bins_and_fun = list(product(n_bins, function_names)) if self.nested else [(i, f) for f, i in product(function_names, n_bins)]
+                lags_and_fun = [(f, l) for l, (i, f) in product(lag_steps, bins_and_fun)]
                 metadata_n = pd.DataFrame(lags_and_fun, columns=['function', 'lag'], index=trans_names)
                 metadata_n['aggregation_time'] = self.agg_freq
                 metadata_n['spacing_time'] = pd.Timedelta(spacing_time)
-                if self.nested:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for i, name, l in
-                                                product(np.arange(len(self.agg_bins) - 1), function_names, lag_steps)]
-                else:
-                    metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for name, i, l in
-                                                product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
-                    metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for name, i, l in
-                                              product(function_names, np.arange(len(self.agg_bins) - 1), lag_steps)]
+                metadata_n['start_time'] = [-dt * (self.original_agg_bins[i] + l) + dt for l, (i, f) in
+                                            product(lag_steps, bins_and_fun)]
+                metadata_n['end_time'] = [-dt * (self.original_agg_bins[i+1]+l) + dt for l, (i, f) in
+                                          product(lag_steps, bins_and_fun)]
             metadata_n['name'] = name
             metadata_n['relative_lags'] = self.relative_lags
 
-- 
2.43.0


From 9770e5d11b15f23f0518b690a49df2549c537d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 05/85] fix: flat binned transforms are defined up to the most
 recent row

---
 pyforecaster/formatter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index a2ac75c..e15717c 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -785,6 +785,8 @@ class Transformer:
                                 d_rolled = d.rolling(window=indexer, min_periods=agg_steps).apply(reducer.reduce)
                                 partial_res.append(np.vstack(reducer.stats).tolist())
                             d = pd.DataFrame(np.hstack(partial_res), index=d_rolled.index[~d_rolled.isna()], columns=trans_names)
+                            # keep the full time index, otherwise the shift loses the most recent rows
+                            d = d.reindex(d_rolled.index)
                             d = d.shift(np.max(self.original_agg_bins)-1)
                     else:
                         if self.nested:
-- 
2.43.0


From 438c3aaddd6a1e394cbe4a38994d9becf8bce32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 06/85] fix: time_kfcv uses n_k test windows of length T/n_k as
 documented

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index e15717c..9edde18 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -438,7 +438,7 @@ class Formatter:
         assert n_k >= 2, 'n_k must be bigger than 2, passed: {}'.format(n_k)
         t_start = time_index[0]
         t_end = time_index[-1]
-        split_times = pd.date_range(t_start, t_end, n_k)
+        split_times = pd.date_range(t_start, t_end, n_k + 1)
         time_window = split_times[1]-split_times[0]
         shift_times = pd.date_range(t_start, t_end - time_window, n_k * multiplier_factor)
 
-- 
2.43.0


From 6db39b9da28b6a6caef3507896fe14f2b9a4a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 07/85] fix: normalise only the columns derived from the
 normalised variable

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 9edde18..e63908d 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -324,7 +324,7 @@ class Formatter:
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.transformers:
                 # find df_n columns to normalize
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     x.loc[:, c] = self.normalizing_wrapper(normalizing_fun, x, c)
 
@@ -337,7 +337,7 @@ class Formatter:
 
         for target_to_norm in np.unique(target_to_norm_names):
             for tr in self.target_transformers:
-                nr_columns = (tr.metadata['name'].isin([target_to_norm])).index
+                nr_columns = tr.metadata.index[tr.metadata['name'].isin([target_to_norm])]
                 for c in nr_columns:
                     df_n.loc[:, c] = self.normalizing_wrapper(normalizing_fun, df_n, c)
         y = df_n[[c for c in y.columns]]
-- 
2.43.0


From 8f8d5af704b592e86b68175b8cb6263a1d205493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 08/85] fix: denormalising quantiles does not overwrite the
 caller's predictions

---
 pyforecaster/formatter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index e63908d..dc60821 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -312,6 +312,7 @@ class Formatter:
         if return_target:
             if isinstance(y.columns, pd.MultiIndex):
                 # we are normalizing a Multiindex Dataframe containing quantiles, indicated in level=1
+                y = y.copy()  # do not write into the caller's quantiles
                 for tau in y.columns.get_level_values(1).unique():
                     y_tau = y.loc[:, (slice(None), tau)]
                     y_tau = y_tau.droplevel(1, 1)
-- 
2.43.0


From a74e2787140a98f6e3e7c75f86f67dbb53d3f547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 09/85] fix: keep_last_seconds keeps only the features ending
 within that many seconds

---
 pyforecaster/formatter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index dc60821..905253f 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -518,8 +518,8 @@ class Formatter:
             metadata['keep'] = metadata['keep'] | metadata['lag'].isin(np.arange(keep_last_n_lags))
 
         if keep_last_seconds > 0:
-            close = (metadata['end_time'] <= pd.Timedelta(keep_last_seconds, unit='s')) | (
-                        metadata['end_time'] <= pd.Timedelta(keep_last_seconds, unit='s'))
+            close = (metadata['end_time'] <= pd.Timedelta(keep_last_seconds, unit='s')) & (
+                        metadata['end_time'] >= -pd.Timedelta(keep_last_seconds, unit='s'))
             predecessor = metadata['end_time'] <= target_end_time
             metadata['keep'] = metadata['keep'] | (close & predecessor)
 
-- 
2.43.0


From 2626dd19729795cc9985894c78695b03e7f539a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 10/85] fix: LGBEnergyAware trains once and uses all validation
 rows for the residuals

---
 pyforecaster/forecasting_models/gradientboosters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 1e16bf8..55738e3 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -195,7 +195,8 @@ class LGBEnergyAware(LGBMHybrid):
             preds_i_no_ctrl = self.models[i].predict(x_i_no_ctrl)
             e_unbalance = pd.concat([e_unbalance, pd.Series(preds_i_no_ctrl-preds_i, index=x_i.index)], axis=1)
 
-        super().fit(x_val, y_val)
+        # post-fit phase only: LGBMHybrid.fit would split and train again
+        ScenarioGenerator.fit(self, x_val, y_val)
         return self
 
     def predict(self, x, **kwargs):
-- 
2.43.0


From af8b301b8d44fe4aa8a52c20960d94af2e0466db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 11/85] fix: QRF uses the sample weights of the training rows,
 also for the multi-step forest

---
 pyforecaster/forecasting_models/randomforests.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 867e029..1328928 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -101,6 +101,9 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def fit(self, x, y, sample_weight=None):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        if sample_weight is not None:
+            # weights of the training rows (the validation rows are the last ones)
+            sample_weight = sample_weight[:len(x)]
         if self.parallel:
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
@@ -116,7 +119,8 @@ class QRF(ScenarioGenerator):
             qrf_pars_global = self.qrf_pars.copy()
             if 'n_jobs' in qrf_pars_global and qrf_pars_global['n_jobs'] is not None and qrf_pars_global['n_jobs'] > 0:
                 qrf_pars_global['n_jobs'] *= self.max_parallel_workers
-            self.multi_step_model = RandomForestQuantileRegressor(**qrf_pars_global).fit(x, y.iloc[:, -self.n_multistep:])
+            self.multi_step_model = RandomForestQuantileRegressor(**qrf_pars_global).fit(x, y.iloc[:, -self.n_multistep:],
+                                                                                           sample_weight=sample_weight)
             self.logger.info('QRF multistep fitted in {:0.2e} s, x shape: [{}, {}]'.format(time() - t_0,
                                                                                                      x.shape[0],
                                                                                                      x.shape[1]))
-- 
2.43.0


From f9c963cc1640153435bd545f71163248048f8105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 12/85] fix: refitting LGBForecaster discards the previous
 boosters

---
 pyforecaster/forecaster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index f05a023..a0ffe89 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -394,6 +394,7 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
             m = train(self.lgb_pars, lgb_data, num_boost_round=self.lgb_pars['n_estimators'])
-- 
2.43.0


From 756cb58408acea3c25c8ba1cfb236010ca35b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 13/85] fix: refitting LGBMHybrid and LGBEnergyAware discards
 the previous models

---
 pyforecaster/forecasting_models/gradientboosters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/gradientboosters.py b/pyforecaster/forecasting_models/gradientboosters.py
index 55738e3..d3652fb 100644
--- a/pyforecaster/forecasting_models/gradientboosters.py
+++ b/pyforecaster/forecasting_models/gradientboosters.py
@@ -82,6 +82,7 @@ class LGBMHybrid(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=cpu_count()-2) as executor:
                 self.models = list(executor.map(partial(self.fit_single, x=x, y=y, lgb_pars=lgb_pars), np.arange(self.n_single)))
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                                 logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
@@ -177,6 +178,7 @@ class LGBEnergyAware(LGBMHybrid):
         lgb_pars = self.get_lgb_pars()
         x, y, x_val, y_val = self.train_val_split(x, y)
         e_unbalance = pd.DataFrame()
+        self.models = []
         for i in tqdm(range(self.n_single)):
             x_i = self.dataset_at_stepahead(x, i,  self.metadata_features, formatter=self.formatter,
                                             logger=self.logger, method='periodic', keep_last_n_lags=self.keep_last_n_lags,
-- 
2.43.0


From c84e0d2cd7f88564f848fcf55ce3b2d6d249ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 14/85] fix: refitting QRF discards the previous forests

---
 pyforecaster/forecasting_models/randomforests.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index 1328928..d5b58e2 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -108,6 +108,7 @@ class QRF(ScenarioGenerator):
             with concurrent.futures.ProcessPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 self.models = [i for i in tqdm(executor.map(partial(self._fit, x=x, y=y, sample_weight=sample_weight), range(self.n_single)),total=self.n_single)]
         else:
+            self.models = []
             for i in tqdm(range(self.n_single)):
                 model = self._fit(i, x, y, sample_weight=sample_weight)
                 self.models.append(model)
-- 
2.43.0


From 047d43ea7f1aa3ab4223e5b7f387f3e6c3cd8f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 15/85] fix: refitting BrutalRegressor starts from scratch

---
 pyforecaster/forecasting_models/random_fourier_features.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 146b539..748ac21 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -94,6 +94,7 @@ class BrutalRegressor:
         if plot:
             plt.figure()
         err = y.copy().values
+        self.best_pars = []
         for i in tqdm(range(self.n_iter)):
             rand_idx = np.random.choice(x.shape[0], int(self.bootstrap_fraction*x.shape[0]), replace=True)
             best_pars = self.one_level_fit(x[rand_idx], err[rand_idx])
-- 
2.43.0


From b4194dade972fa8f19dd634cf609f1692fc1a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 16/85] fix: LGBForecaster.set_params takes effect at the next
 fit

---
 pyforecaster/forecaster.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index a0ffe89..ce41fac 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -394,6 +394,8 @@ class LGBForecaster(ScenarioGenerator):
 
     def fit(self, x, y):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        # parameters may have been changed through set_params
+        self.lgb_pars = {k: getattr(self, k) for k in self.lgb_pars}
         self.m = []
         for i in tqdm(range(y.shape[1]), 'fitting LGB models'):
             lgb_data = Dataset(x, y.iloc[:, i].values.ravel())
-- 
2.43.0


From cbe4a9ab23e3d37c2091664b72be6868405f415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 17/85] fix: QRF passes max_depth to the forests

---
 pyforecaster/forecasting_models/randomforests.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index d5b58e2..df09e9f 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -71,6 +71,7 @@ class QRF(ScenarioGenerator):
 
         self.qrf_pars = {
             "n_estimators":n_estimators,
+            "max_depth": max_depth,
             "bootstrap": bootstrap,
             "oob_score": oob_score,
             "n_jobs": n_jobs,
-- 
2.43.0


From a58043f496549a0fc9971544cc563198d880a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 18/85] fix: QRF.set_params takes effect at the next fit

---
 pyforecaster/forecasting_models/randomforests.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index df09e9f..ea88e5b 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -102,6 +102,8 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def fit(self, x, y, sample_weight=None):
         x, y, x_val, y_val = self.train_val_split(x, y)
+        # parameters may have been changed through set_params
+        self.qrf_pars.update({k: getattr(self, k) for k in self.qrf_pars if hasattr(self, k)})
         if sample_weight is not None:
             # weights of the training rows (the validation rows are the last ones)
             sample_weight = sample_weight[:len(x)]
-- 
2.43.0


From bce3929edad7087b151a12857568f093c89e70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 19/85] fix: copula samples keep their (row, step, scenario)
 layout for a single scenario

---
 pyforecaster/copula.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 08d08de..1fd3f49 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -90,12 +90,8 @@ class HourlyGaussianCopula(GaussianCopula):
                 continue
             else:
                 mvr_samples = mvr.rvs((np.sum(hour_filt), n_scen), random_state=random_state)
-                # if sum(hour_filt) == 1, mvr_sample has lower dimensionality
-                if np.sum(hour_filt) == 1:
-                    mvr_samples = np.expand_dims(mvr_samples, 0)
-                # if we're predicting only one target, mvr.rvs has lower dimensionality
-                if len(mvr_samples.shape) == 2:
-                    mvr_samples = np.expand_dims(mvr_samples, -1)
+                # mvr.rvs squeezes the axes of length one (observations, scenarios or steps)
+                mvr_samples = np.reshape(mvr_samples, (np.sum(hour_filt), n_scen, self.dim))
                 mvr_samples = np.swapaxes(mvr_samples, 1, 2)
                 copula_samples[hour_filt, :, :] = norm.cdf(mvr_samples)
         return copula_samples
-- 
2.43.0


From 1603bcde68cfca93f06383bdc62c70ccfa6393fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 20/85] fix: shrunk and glasso copulas have unit variances

---
 pyforecaster/copula.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index 1fd3f49..d77f3e6 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -52,12 +52,12 @@ class HourlyGaussianCopula(GaussianCopula):
                 est_cov = np.corrcoef(x_h.T) + np.eye(self.dim)*1e-6
             elif self.cov_est_method == 'shrunk':
                 sh = ShrunkCovariance().fit(x_h)
-                std = np.std(x_h.values, axis=0)
+                std = np.sqrt(np.diag(sh.covariance_))
                 est_cov = sh.covariance_ / np.outer(std, std)
             elif self.cov_est_method in ['glasso', 'glasso_cv']:
                 self.logger.info('alpha glasso: {}'.format(alpha_glasso))
                 gl = GraphicalLasso(alpha=alpha_glasso).fit(x_h)
-                std = np.std(x_h.values, axis=0)
+                std = np.sqrt(np.diag(gl.covariance_))
                 est_cov = gl.covariance_ / np.outer(std, std)
             else:
                 raise ValueError('cov_est_method not recognized')
-- 
2.43.0


From 4bda0f5cff5e79313e43b342ec5579b1bf980a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 21/85] fix: glasso_cv selects its penalty on the hour with
 most observations

---
 pyforecaster/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/copula.py b/pyforecaster/copula.py
index d77f3e6..3cba080 100644
--- a/pyforecaster/copula.py
+++ b/pyforecaster/copula.py
@@ -39,7 +39,7 @@ class HourlyGaussianCopula(GaussianCopula):
         self.logger.info('estimating gaussian copula, conditional on day-hour')
         if self.cov_est_method == 'glasso_cv':
             # optimize alpha in CV on the hour with most observations only
-            hour_filt = y.index.hour == y.index.hour.value_counts().argmax()
+            hour_filt = y.index.hour == y.index.hour.value_counts().idxmax()
             x_h = y.loc[hour_filt, :]
             glcv = GraphicalLassoCV().fit(x_h)
             alpha_glasso = glcv.alpha_
-- 
2.43.0


From 65bf3259f698eb540371336816490aedcfa25d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 22/85] fix: explicit node counts do not need the default ones,
 which need at least 8 scenarios

---
 pyforecaster/tree_builders.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index ffe059b..0dad3b9 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -65,14 +65,13 @@ class ScenarioTree:
         return tree, tree_scens, tree_vals
 
     def gen_init_tree(self, scens, nodes_at_step=None):
+        if nodes_at_step is None:
+            nodes_at_step = self.nodes_at_step
         if nodes_at_step is None:
             geometric_steps = np.array([2**t for t in range(int(np.log(scens.shape[1])/np.log(2)))][2:])
             geometric_progression = np.floor(np.logspace(-1, np.log(len(geometric_steps))/np.log(10), scens.shape[0])).astype(int)
             reverse_geom_progression = np.max(geometric_progression) - geometric_progression[::-1]
-            geometric_nodes = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
-
-            nodes_at_step = self.nodes_at_step if self.nodes_at_step is not None else \
-                geometric_nodes
+            nodes_at_step = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
 
         if len(nodes_at_step) == scens.shape[1]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
-- 
2.43.0


From ca99c7e8ac524ee146023edb82aeb71245061692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 23/85] fix: gen_init_tree compares the node counts with the
 steps, not the scenarios, and does not modify them

---
 pyforecaster/tree_builders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index 0dad3b9..d0517cc 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -73,7 +73,9 @@ class ScenarioTree:
             reverse_geom_progression = np.max(geometric_progression) - geometric_progression[::-1]
             nodes_at_step = geometric_steps[np.minimum(reverse_geom_progression, len(geometric_steps)-1)]
 
-        if len(nodes_at_step) == scens.shape[1]-1:
+        # the caller's counts are not modified
+        nodes_at_step = np.array(nodes_at_step)
+        if len(nodes_at_step) == scens.shape[0]-1:
             nodes_at_step = np.hstack([1, nodes_at_step])
             self.logger.info('seems like you have one step more in your scenarios than what specified in nodes_at_step'
                              'I assume you are passing an additional step to consider initial variance, I am adding an '
-- 
2.43.0


From 10ea68672bdabdbca23a35450702548fee62a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:43 +0000
Subject: [PATCH 24/85] fix: values of tree nodes come from the scenarios of
 their own step

---
 pyforecaster/tree_builders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/tree_builders.py b/pyforecaster/tree_builders.py
index d0517cc..af02543 100644
--- a/pyforecaster/tree_builders.py
+++ b/pyforecaster/tree_builders.py
@@ -48,7 +48,7 @@ class ScenarioTree:
                     children = list(tree.successors(j))
                     qs = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 1))
                     bins.update({c: [qs[i], qs[i+1]] for i, c in enumerate(children)})
-                    vals_j = np.quantile(scens[t, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
+                    vals_j = np.quantile(scens[t+1, filters[j]], np.linspace(0, 1, len(children) + 2)[1:-1])
                     for c, v in zip(children, vals_j):
                         vals[c] = v
                         filters[c] = filters[j][(scens[t+1, filters[j]] > bins[c][0] - 1e-6) &
-- 
2.43.0


From 74308cf078586c8faaf27da93e8e1e3e7b24d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 25/85] fix: reconciled forecasts are labelled with the series
 they belong to

---
 pyforecaster/reconciliation/reconciliation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index a6b2eb9..008ccf7 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -309,17 +309,17 @@ class HierarchicalReconciliation:
 
     def reconcile(self, y_hat):
         if self.method in ['dummy', 'minT']:
-            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].T
+            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].values.T
         elif self.method == 'bayes':
             y_b = y_hat.loc[:, self.bottom_series]
             y_u = y_hat.loc[:, self.aggregated_series]
             y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
-            y_rec = self.s_matrix @ y_b_rec
+            y_rec = self.s_matrix @ y_b_rec.values
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
-        y_rec = y_rec.T
-        y_rec.columns = y_hat.columns
-        return y_rec
+        # rows of the summation matrix follow ordered_cols, whatever the order of the columns of y_hat
+        y_rec = pd.DataFrame(y_rec.T, index=y_hat.index, columns=pd.Index(self.ordered_cols, name=y_hat.columns.name))
+        return y_rec[y_hat.columns]
 
     def get_summation_matrix(self, y, hierarchy):
         self.bottom_series = [c for c in y.columns if c not in hierarchy.keys()]
-- 
2.43.0


From cc7b5fcdbf3c33e3f292711d429a86f5fd6a88ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 26/85] fix: bayes reconciliation no longer subtracts frames
 with different labels

---
 pyforecaster/reconciliation/reconciliation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 008ccf7..3547aa3 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -311,10 +311,10 @@ class HierarchicalReconciliation:
         if self.method in ['dummy', 'minT']:
             y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].values.T
         elif self.method == 'bayes':
-            y_b = y_hat.loc[:, self.bottom_series]
-            y_u = y_hat.loc[:, self.aggregated_series]
+            y_b = y_hat.loc[:, self.bottom_series].values
+            y_u = y_hat.loc[:, self.aggregated_series].values
             y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
-            y_rec = self.s_matrix @ y_b_rec.values
+            y_rec = self.s_matrix @ y_b_rec
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
         # rows of the summation matrix follow ordered_cols, whatever the order of the columns of y_hat
@@ -329,7 +329,8 @@ class HierarchicalReconciliation:
         self.n_u = n_all - self.n_b
         I = np.eye(self.n_b)
         self.s_matrix = np.vstack([self.a_matrix, I])
-        self.aggregated_series = [c for c in y.columns if c not in self.bottom_series]
+        # same order as the rows of a_matrix
+        self.aggregated_series = list(self.hierarchy_flatten.keys())
 
     @staticmethod
     def estimate_covariance(x, method):
-- 
2.43.0


From 93c9c47affe07e52588bf12c64980a0de890ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 27/85] fix: bayes reconciliation with a single aggregation
 uses the variance of its errors

---
 pyforecaster/reconciliation/reconciliation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 3547aa3..872fd5a 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -295,7 +295,7 @@ class HierarchicalReconciliation:
         elif self.method == 'bayes':
             cov_b, precision_b = self.estimate_covariance(err_b.values, method=cov_method)
             if err_u.shape[1] < 2:
-                cov_u = np.std(err_u)
+                cov_u = np.atleast_2d(np.var(err_u.values))
             else:
                 cov_u, precision_u = self.estimate_covariance(err_u.values, method=cov_method)
             self.g_matrix = cov_b @ self.a_matrix.T @ np.linalg.inv(cov_u + self.a_matrix @ cov_b @ self.a_matrix.T)
-- 
2.43.0


From 6856aea161d3cb562215fcc01d1b5ad13c34bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 28/85] fix: each step ahead is reconciled with the matrices
 estimated on its own errors

---
 pyforecaster/reconciliation/reconciliation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 872fd5a..4c4f9f8 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -24,6 +24,7 @@ class HierarchicalReconciliation:
         self.s_matrix = None
         self.g_matrix = None
         self.p_matrix = None
+        self.step_matrices = {}
         self.ordered_cols = None
         self.base_forecaster_class = base_forecaster_class
         self.base_forecaster_kwargs = forecaster_kwargs
@@ -191,7 +192,8 @@ class HierarchicalReconciliation:
 
             # ---------------------------- fit, predict -------------------------------------------------------------------
             self.fit_reconciliation(y_sa, y_hat_sa, self.hierarchy)
-            y_tilde_sa = self.reconcile(y_hat_sa)
+            self.step_matrices[t_name] = (self.p_matrix, self.g_matrix)
+            y_tilde_sa = self.reconcile(y_hat_sa, t_name)
 
             # ---------------------------- retrieve error samples from the training set ------------------------------------
 
@@ -214,7 +216,7 @@ class HierarchicalReconciliation:
         for t_name in tqdm(target_names):
             # get reconciled forecasts at this step ahead
             y_hat_sa = y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].droplevel(1, 1)
-            y_tilde[t_name] = self.reconcile(y_hat_sa)
+            y_tilde[t_name] = self.reconcile(y_hat_sa, t_name)
 
         y_tilde = pd.concat(y_tilde, axis=1).swaplevel(0, 1, axis=1).sort_index(axis=1)
 
@@ -246,7 +248,7 @@ class HierarchicalReconciliation:
         target_names = y_hat.columns.get_level_values(1).unique()
         if method == 'reconciled':
             y_tilde = pd.concat({t_name: self.reconcile(y_hat.loc[:, y_hat.columns.get_level_values(1) == t_name].
-                                                    droplevel(1, 1)) for t_name in target_names}, axis=1)
+                                                    droplevel(1, 1), t_name) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
         scens = []
@@ -307,13 +309,15 @@ class HierarchicalReconciliation:
 
         return y_rec
 
-    def reconcile(self, y_hat):
+    def reconcile(self, y_hat, t_name=None):
+        # matrices of the given step ahead, or those of the last call of fit_reconciliation
+        p_matrix, g_matrix = (self.p_matrix, self.g_matrix) if t_name is None else self.step_matrices[t_name]
         if self.method in ['dummy', 'minT']:
-            y_rec = self.s_matrix @ self.p_matrix @ y_hat[self.ordered_cols].values.T
+            y_rec = self.s_matrix @ p_matrix @ y_hat[self.ordered_cols].values.T
         elif self.method == 'bayes':
             y_b = y_hat.loc[:, self.bottom_series].values
             y_u = y_hat.loc[:, self.aggregated_series].values
-            y_b_rec = y_b.T + self.g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
+            y_b_rec = y_b.T + g_matrix @ (y_u.T - (self.a_matrix @ y_b.T))
             y_rec = self.s_matrix @ y_b_rec
         else:
             raise NotImplementedError('method {} not implemented. Chose among minT, dummy, bayes'.format(self.method))
-- 
2.43.0


From 27bbee56e237f23d52d3c899b44f4601f69d5bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 29/85] fix: hierarchical scenarios can be predicted on data
 other than the training set

---
 pyforecaster/reconciliation/reconciliation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 4c4f9f8..735bc16 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -251,15 +251,20 @@ class HierarchicalReconciliation:
                                                     droplevel(1, 1), t_name) for t_name in target_names}, axis=1)
             y_tilde = y_tilde.swaplevel(0, 1, axis=1).sort_index(axis=1)
 
+        # errors of the same kind of forecasts
+        errs = self.errs_hat if method == 'vanilla' else self.errs_tilde
         scens = []
         for h in range(24):
-            h_idx_tr = self.errs_tilde.index.hour == h
+            h_idx_tr = errs.index.hour == h
+            h_idx_te = y_hat.index.hour == h
             if method == 'vanilla':
-                y_hat_h = y_hat.loc[h_idx_tr]
+                y_hat_h = y_hat.loc[h_idx_te]
             elif method == 'reconciled':
-                y_hat_h = y_tilde.loc[h_idx_tr]
+                y_hat_h = y_tilde.loc[h_idx_te]
             n_times = y_hat_h.shape[0]
-            scens.append(pd.concat({s: y_hat_h + self.errs_tilde.loc[h_idx_tr]
+            if n_times == 0:
+                continue
+            scens.append(pd.concat({s: y_hat_h + errs.loc[h_idx_tr]
                       .sample(n_times, replace=True)
                       .reset_index(drop=True)
                       .set_index(y_hat_h.index) for s in range(self.n_scenarios)},axis=1,names=['scenario', 'series', 'step'])\
-- 
2.43.0


From ca30f809be777598f3da356441925acf26690035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 30/85] fix: vanilla quantiles of the hierarchy

---
 pyforecaster/reconciliation/reconciliation.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 735bc16..64e777f 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -3,7 +3,7 @@ import pandas as pd
 from sklearn.covariance import GraphicalLassoCV, ShrunkCovariance
 from pyforecaster.forecaster import LinearForecaster
 from tqdm import tqdm
-from pyforecaster.utilities import convert_multiindex_pandas_to_tensor, from_tensor_to_pdmultiindex
+from pyforecaster.utilities import convert_multiindex_pandas_to_tensor
 from pyforecaster.utilities import get_logger
 import seaborn as sb
 from pyforecaster.plot_utils import plot_scenarios_from_multilevel
@@ -102,21 +102,14 @@ class HierarchicalReconciliation:
 
         return y_hat
     def get_quantiles(self, x: pd.DataFrame, level='bottom'):
-        steps_ahead = len(self.steps)
         if level == 'bottom':
             bottom_series = [c for c in x['name'].unique() if c not in self.hierarchy.keys()]
-            q_hat = pd.concat({k: from_tensor_to_pdmultiindex(
-                    self.models_dict['bottom'].predict_quantiles(
-                        x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    bottom_series}, axis=1)
+            q_hat = pd.concat({k: self.models_dict['bottom'].predict_quantiles(
+                        x.loc[x['name'].isin([k])].drop('name', axis=1)) for k in bottom_series}, axis=1)
         elif level == 'aggregations':
             q_hat = pd.concat(
-                {k: from_tensor_to_pdmultiindex(
-                    self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])].drop('name', axis=1)),
-                    x.loc[x['name'].isin([k])].index, np.arange(steps_ahead), self.q_vect) for k in
-                    self.hierarchy.keys()},
-                axis=1)
+                {k: self.models_dict[k].predict_quantiles(x.loc[x['name'].isin([k])].drop('name', axis=1)) for k in
+                 self.hierarchy.keys()}, axis=1)
         elif level == 'all':
             q_hat_bottom = self.get_quantiles(x, level='bottom')
             q_hat_aggr = self.get_quantiles(x, level='aggregations')
-- 
2.43.0


From e46e90dd59f5758afe1b13eaca4e1093afd66b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 31/85] fix: KPIs of the hierarchy compare each series with its
 own target

---
 pyforecaster/reconciliation/reconciliation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 64e777f..1516a29 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -378,8 +378,10 @@ class HierarchicalReconciliation:
         kpi = {}
         target_names = hat.columns.get_level_values(1).unique()
         for s in target_names:
-            hat_s = convert_multiindex_pandas_to_tensor(hat.loc[:, (slice(None), [s], slice(None))].droplevel(1, 1))
-            y_mat_s = y_mat.loc[:, (slice(None), [s])].droplevel(1, 1)
+            hat_s = hat.loc[:, (slice(None), [s], slice(None))].droplevel(1, 1)
+            # the tensor has no labels: same order of the series in forecasts and targets
+            y_mat_s = y_mat.loc[:, (slice(None), [s])].droplevel(1, 1)[hat_s.columns.get_level_values(0).unique()]
+            hat_s = convert_multiindex_pandas_to_tensor(hat_s)
             kpi[s] = metric(hat_s, y_mat_s, **metric_kwargs).T
             if kpi[s].index.nlevels == 2:
                 kpi[s] = kpi[s].unstack(level=0)
-- 
2.43.0


From c90cf7382335a905a217aac1a823586be3fc547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 32/85] fix: hierarchies may mix series names of different
 types

---
 pyforecaster/reconciliation/reconciliation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/reconciliation/reconciliation.py b/pyforecaster/reconciliation/reconciliation.py
index 1516a29..771784f 100644
--- a/pyforecaster/reconciliation/reconciliation.py
+++ b/pyforecaster/reconciliation/reconciliation.py
@@ -68,7 +68,7 @@ class HierarchicalReconciliation:
                 sublist = HierarchicalReconciliation.unroll_subdict(hierarchy, i)
                 full_list.append(sublist)
             else:
-                full_list.append(np.array(i))
+                full_list.append(np.array([i], dtype=object))
         return np.hstack(full_list)
 
     @staticmethod
-- 
2.43.0


From 3feb84b636c3ac87139b1a83625cb59e81e3abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 33/85] fix: fdf_parallel without ray processes all the pieces
 and keeps their labels

---
 pyforecaster/big_data_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/big_data_utils.py b/pyforecaster/big_data_utils.py
index 5f835ff..2f9f564 100644
--- a/pyforecaster/big_data_utils.py
+++ b/pyforecaster/big_data_utils.py
@@ -83,17 +83,17 @@ def fdf_parallel(f, df:Union[pd.DataFrame, list], n_splits=None, axis=0, use_ray
         if axis==0:
             df_shape_0 = sum([x.shape[0] for x in dfs])
             df_shape_1 = dfs[0].shape[1]
-            df_columns = np.unique(dfs[0].columns)
+            df_columns = dfs[0].columns
         else:
             df_shape_0 = dfs[0].shape[0]
             df_shape_1 = sum([x.shape[1] for x in dfs])
-            df_columns = np.unique([x.columns for x in dfs])
+            df_columns = dfs[0].columns.append([x.columns for x in dfs[1:]])
 
         df_shape = (df_shape_0, df_shape_1)
 
-        df_indexes = np.hstack([x.index.ravel() for x in dfs]) if axis==0 else dfs[0].index
+        df_indexes = dfs[0].index.append([x.index for x in dfs[1:]]) if axis==0 else dfs[0].index
 
-        res = mapper(f, [df.values for df in [dfs[0]]])
+        res = mapper(f, [df.values for df in dfs])
         res = np.vstack(res) if axis == 0 else np.hstack(res)
 
         if res.shape == df_shape:
-- 
2.43.0


From eea7c4652b5197f4d04209be351b9ac3800d5a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:07 +0000
Subject: [PATCH 34/85] fix: columns of the global form have the same order in
 every process

---
 pyforecaster/formatter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 905253f..d379f37 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -602,13 +602,14 @@ class Formatter:
                                                                                      ' "target"'
         transformed_columns = [tr.names for tr in self.transformers]
         transformed_columns = [item for sublist in transformed_columns for item in sublist]
-        transformed_columns = list(set(np.unique(transformed_columns)) - {'target'})
+        # the order of the columns must not depend on the process (as the one of a set would)
+        transformed_columns = [c for c in np.unique(transformed_columns) if c != 'target']
         # if x is multiindex pd.DataFrame do something
         if isinstance(x.columns, pd.MultiIndex):
             # find columns names at level 0 that contains the targets
             c_l_0 = x.columns.get_level_values(0).unique()
             private_cols_l0 = [c for c in c_l_0 if not np.all([str(t) in transformed_columns for t in x[c].columns])]
-            shared_cols_l0 = list(set(c_l_0) - set(private_cols_l0))
+            shared_cols_l0 = [c for c in c_l_0 if c not in private_cols_l0]
             x_shared = x[shared_cols_l0].droplevel(0, 1)
             dfs = []
             for p in private_cols_l0:
-- 
2.43.0


From b1c03e913006d590287e09affbd4b2a4d1dadf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 35/85] fix: features reordered by correlation keep the order
 of their own signal at prediction time

---
 pyforecaster/formatter.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index d379f37..bc4c825 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -645,14 +645,17 @@ class Formatter:
                 # reorder columns by correlation with first target
                 transformed_cols_names = tr.metadata.loc[tr.metadata['name']==v].index
                 if corr_reorder:
-                    if y.empty:
-                        transformed_cols_names_reordered = tr.reordered_cols_names_dict[v]
-                        x.loc[:, transformed_cols_names] = x.loc[:, transformed_cols_names_reordered].values
-                    else:
-                        corr = x[transformed_cols_names].corrwith(y.iloc[:, 0])
-                        transformed_cols_names_reordered = corr.sort_values(ascending=False).index
-                        tr.reordered_cols_names_dict[v] = transformed_cols_names_reordered
-                        x.loc[:, transformed_cols_names] = x.loc[:, transformed_cols_names_reordered].values
+                    # each signal has its own order, which is the same at training and prediction time
+                    signals = x['name'] if 'name' in x.columns else pd.Series('', index=x.index)
+                    orders = tr.reordered_cols_names_dict.setdefault(v, {})
+                    for s in signals.unique():
+                        rows = (signals == s).values
+                        if not y.empty:
+                            corr = x.loc[rows, transformed_cols_names].corrwith(y.loc[rows].iloc[:, 0])
+                            orders[s] = corr.sort_values(ascending=False).index
+                        # signals which were not in the training set use the last order
+                        order = orders.get(s, list(orders.values())[-1])
+                        x.loc[rows, transformed_cols_names] = x.loc[rows, order].values
         xs.append(x)
         ys.append(y)
         return xs, ys
-- 
2.43.0


From f90778c9ac150a5ee89d1703949e3661efa1a441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 36/85] fix: seasonal persistence predicts the next steps, not
 the current one

---
 pyforecaster/forecasting_models/benchmarks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index f411510..e5d4eb6 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -51,7 +51,8 @@ class SeasonalPersistent(ScenarioGenerator):
 
     def predict(self, x: pd.DataFrame, **kwargs):
         values = np.hstack([self.state.ravel(), x[self.target_col].values])
-        y_hat = hankel(values, self.n_sa)
+        # values[i] was observed one season before row i, whose first step ahead is row i+1
+        y_hat = hankel(values[1:], self.n_sa)
         return pd.DataFrame(y_hat[:len(x), :], index=x.index)
 
     def _predict_quantiles(self, x: pd.DataFrame, **kwargs):
-- 
2.43.0


From 5d974534f9b6f2709da4e7bd0146cef660876446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 37/85] fix: the state of seasonal persistence is the season
 before the rows it predicts

---
 pyforecaster/forecasting_models/benchmarks.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index e5d4eb6..d112c2a 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -43,10 +43,16 @@ class SeasonalPersistent(ScenarioGenerator):
         self.state = None
 
     def fit(self, x: pd.DataFrame, y: pd.DataFrame = None):
+        last_season = x[[self.target_col]].iloc[-self.seasonality:].values
         x, y, x_val, y_val = self.train_val_split(x, x[[self.target_col]])
+        if self.val_ratio is None:
+            # errors are not defined on the first season, which has no past
+            x, x_val, y_val = x.iloc[:self.seasonality], x_val.iloc[self.seasonality:], y_val.iloc[self.seasonality:]
         hw_target = hankel(y_val.iloc[1:].values, self.n_sa)
         self.state = x[[self.target_col]].iloc[-self.seasonality:].values
         super().fit(x_val.iloc[:-self.n_sa, :], pd.DataFrame(hw_target, index=x_val.index[:hw_target.shape[0]]))
+        # predictions follow the whole training set
+        self.state = last_season
         return self
 
     def predict(self, x: pd.DataFrame, **kwargs):
-- 
2.43.0


From 571a26769eff0c708055b3cfb90849caea37cf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 38/85] fix: DiscreteDistr keeps the index and uses the
 sampling time of the training set at prediction

---
 pyforecaster/forecasting_models/benchmarks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index d112c2a..7ac2b33 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -79,6 +79,7 @@ class DiscreteDistr(ScenarioGenerator):
                          conditional_to_hour=conditional_to_hour, **scengen_kwgs)
         self.n_sa = None
         self.period = period
+        self.sampling_time = None
         self.target_names = None
         self.y_distributions = None
         self.support = None
@@ -87,6 +88,7 @@ class DiscreteDistr(ScenarioGenerator):
         self.n_sa = y.shape[1]
         # infer sampling time
         sampling_time = x.index.drop_duplicates().diff().median()
+        self.sampling_time = sampling_time
 
         # retrieve support of target distribution
         support = np.unique(y.values)
@@ -119,10 +121,8 @@ class DiscreteDistr(ScenarioGenerator):
         return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0).sum().T
 
     def predict_probabilities(self, x, **kwargs):
-        # infer sampling time
-        sampling_time = x.index.drop_duplicates().diff().median()
-        # Create a new column for the time within a day (hours and minutes)
-        time_of_day = pd.Series(x.index.floor(sampling_time).time)
+        # Create a new column for the time within a day (hours and minutes), with the sampling time of the training set
+        time_of_day = pd.Series(x.index.floor(self.sampling_time).time, index=x.index)
 
         # retrieve the distribution for the time of day
         y_hat = {}
-- 
2.43.0


From e5bf3a427a66d9a18b55bd865090c8d8424e4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 39/85] fix: columns of DiscreteDistr predictions follow the
 targets

---
 pyforecaster/forecasting_models/benchmarks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/benchmarks.py b/pyforecaster/forecasting_models/benchmarks.py
index 7ac2b33..a599eb3 100644
--- a/pyforecaster/forecasting_models/benchmarks.py
+++ b/pyforecaster/forecasting_models/benchmarks.py
@@ -113,12 +113,13 @@ class DiscreteDistr(ScenarioGenerator):
 
         # store the distribution
         self.y_distributions = y_distrib
-        self.target_names = list(y_distrib.columns.levels[0])
+        # same order as the columns of y
+        self.target_names = list(y.columns)
         self.target_cols = [f'{t}_t+{i}' for t in self.target_names for i in range(1, self.n_sa+1)]
         return self
 
     def predict(self, x, **kwargs):
-        return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0).sum().T
+        return (self.predict_probabilities(x) * np.tile(self.support.reshape(1, -1), self.n_sa)).T.groupby(level=0, sort=False).sum().T
 
     def predict_probabilities(self, x, **kwargs):
         # Create a new column for the time within a day (hours and minutes), with the sampling time of the training set
-- 
2.43.0


From c4c29ee81e7ef562d356b920118a465a4d3afb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 40/85] fix: steps ahead of statsmodels forecasts follow the
 observation of their row

---
 pyforecaster/forecasting_models/statsmodels_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/statsmodels_wrapper.py b/pyforecaster/forecasting_models/statsmodels_wrapper.py
index b03e188..99e1a0f 100644
--- a/pyforecaster/forecasting_models/statsmodels_wrapper.py
+++ b/pyforecaster/forecasting_models/statsmodels_wrapper.py
@@ -8,13 +8,14 @@ from pyforecaster.forecasting_models.holtwinters import hankel
 def get_forecasts(model, y_te, x_te, n_step_ahead=24):
   y_hat = np.zeros((len(y_te), n_step_ahead))
   for i in tqdm(range(len(y_te))):
-    y_hat[i,:] = model.forecast(n_step_ahead)
     exog = x_te.iloc[[i]].values if x_te is not None else None
     try:
         model = model.append(y_te.iloc[[i]], exog=exog) # this method UPDATES the model with the last observation
     except:
         print('Error in updating the model')
         model = model.apply(y_te.iloc[[i]], exog=exog)  # this method UPDATES the model with the last observation
+    # the steps ahead follow the observation of the row
+    y_hat[i,:] = model.forecast(n_step_ahead)
   return pd.DataFrame(y_hat, index=y_te.index)
 
 
-- 
2.43.0


From e60400be6101bacb46866d8211bb8fa2deed341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 41/85] fix: Holt-Winters predicts with the trend coefficient
 it was fitted with

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 56508e3..534106a 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -223,7 +223,7 @@ class HoltWinters(ScenarioGenerator):
         hw_input = y_past
 
         # predict the HW
-        y_hat_hw, a, b, s1, s2 = self._run(hw_input.ravel(), self.alpha, 0, self.gamma_1, self.gamma_2)
+        y_hat_hw, a, b, s1, s2 = self._run(hw_input.ravel(), self.alpha, self.beta, self.gamma_1, self.gamma_2)
 
         # set the states (it is thought that the forecaster is called in sequence on ordinate samples)
         self.a = a
-- 
2.43.0


From 717436e67de95f2028148177b42a9fac98852c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 42/85] fix: Holt-Winters residuals are those of its
 predictions also without covariates

---
 pyforecaster/forecasting_models/holtwinters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 534106a..6fd8f6e 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -197,6 +197,9 @@ class HoltWinters(ScenarioGenerator):
 
         resid = hw_target - y_hat_hw
         self.coeffs_output = np.linalg.pinv(x[:-self.n_sa,:].T @ x[:-self.n_sa,:]) @ (x[:-self.n_sa,:].T @ resid)
+        if x.shape[1] == 1:
+            # predictions are corrected only if there are covariates
+            self.coeffs_output = np.zeros_like(self.coeffs_output)
         self.y_hat_tr = pd.DataFrame(y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output,
                                         index=x_pd.index[:-self.n_sa])
         resid = hw_target - self.y_hat_tr
-- 
2.43.0


From a3e6b4e23e13198a4a46d84d8b904036f2829d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 43/85] fix: HoltWintersMulti takes the error quantiles of each
 step from the model of that step

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 6fd8f6e..08568d7 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -440,7 +440,7 @@ class HoltWintersMulti(ScenarioGenerator):
             m.fit(x_pd, y_pd)
             selection = np.arange(k, m.err_distr.shape[0])
             err_distr[selection, :] = m.err_distr[selection, :]
-            k = m.err_distr.shape[1]
+            k = m.err_distr.shape[0]
 
         # reinit HW
         # concat past inputs and last row of target
-- 
2.43.0


From 79cf3e72d6f88ee35973cc945e1778dcaacdf895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 44/85] fix: HoltWintersMulti passes the constraints to its
 models

---
 pyforecaster/forecasting_models/holtwinters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 08568d7..26a9874 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -409,6 +409,7 @@ class HoltWintersMulti(ScenarioGenerator):
         self.optimization_budget = optimization_budget
         self.optimize_submodels_hyperpars = optimize_submodels_hyperpars
         self.n_sa = n_sa
+        self.constraints = constraints
         self.models_periods = models_periods if models_periods is not None else np.arange(1, 1+n_sa)
         self.alphas = np.ones(len(self.models_periods)) * 0.01 if alphas is None else alphas
         self.gammas_1 = np.ones(len(self.models_periods)) * 0.01 if gammas_1 is None else gammas_1
@@ -422,7 +423,7 @@ class HoltWintersMulti(ScenarioGenerator):
         models = []
         for i, n in enumerate(self.models_periods):
             models.append(HoltWinters(periods=self.periods, q_vect=self.q_vect,
-                             n_sa=n, target_name=self.target_name, optimization_budget=self.optimization_budget,
+                             n_sa=n, target_name=self.target_name, constraints=self.constraints, optimization_budget=self.optimization_budget,
                                       targets_names=self.targets_names, verbose=False, optimize_hyperpars=self.optimize_submodels_hyperpars,
                                       alpha=self.alphas[i], gamma_1=self.gammas_1[i], gamma_2=self.gammas_2[i]))
 
-- 
2.43.0


From c961795fb46a1a105c68feecd4fd346c48efb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 45/85] fix: quantiles of HoltWintersMulti can be returned as a
 frame

---
 pyforecaster/forecasting_models/holtwinters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 26a9874..a2b6e0c 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -447,6 +447,7 @@ class HoltWintersMulti(ScenarioGenerator):
         # concat past inputs and last row of target
         self.reinit(x_pd[self.target_name].values)
         self.err_distr = err_distr
+        self.target_cols = ['{}_{}'.format(self.target_name, t) for t in np.arange(self.n_sa)]
 
         return self
 
-- 
2.43.0


From 7f4fba5145c35db84a595ef1e3df063727107d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 46/85] fix: hyper-parameter trials do not modify the arguments
 of the following ones

---
 pyforecaster/forecasting_models/holtwinters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index a2b6e0c..fa70236 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -29,7 +29,8 @@ def hankel(x, n, generate_me=None):
 
 def fit_sample(pars_dict,model_class, model_init_kwargs, x, return_model=False):
     targets_names = model_init_kwargs['targets_names'] if 'targets_names' in model_init_kwargs.keys() else None
-    model_init_kwargs.update(pars_dict)
+    # the same dictionary is used for all the trials
+    model_init_kwargs = {**model_init_kwargs, **pars_dict}
     model = model_class(**model_init_kwargs)
     if targets_names is not None and model_class.__name__ not in ["HoltWintersMulti", "FK_multi"]:
         subscores = []
-- 
2.43.0


From 761623e88d57793c6c0f507a1fba089936b380db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 47/85] fix: a missing observation does not make all the
 following Holt-Winters forecasts missing

---
 pyforecaster/forecasting_models/holtwinters.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index fa70236..85d6f3f 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -354,14 +354,11 @@ def run(horizon, period, alpha, beta, gamma, s1mp, s2mp, am1, bm1, Y, y_tot, y_h
     s1mp_shift = 0*s1mp
     s2mp_shift = 0*s2mp
     for j in np.arange(len(Y)):
-        if np.isnan(Y[j]):
-            a = alpha * (y_tot[j,0] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
-            s1 = gamma[0] * (y_tot[j,0] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-            s2 = gamma[1] * (y_tot[j,0] - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
-        else:
-            a = alpha * (Y[j] - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
-            s1 = gamma[0] * (Y[j] - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
-            s2 = gamma[1] * (Y[j] - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
+        # missing observations are replaced by their forecast
+        y_j = am1 + bm1 + s1mp[0] + s2mp[0] if np.isnan(Y[j]) else Y[j]
+        a = alpha * (y_j - s1mp[0] - s2mp[0]) + (1 - alpha) * (am1 + bm1)
+        s1 = gamma[0] * (y_j - a - s2mp[0]) + (1 - gamma[0]) * s1mp[0]
+        s2 = gamma[1] * (y_j - a - s1mp[0]) + (1 - gamma[1]) * s2mp[0]
         s1 = constrainify(s1, constraints)
         s2 = constrainify(s2, constraints)
 
-- 
2.43.0


From d37a01fca02bc36819bd27ed8bf6a177d8ba436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 48/85] fix: fitting Holt-Winters again starts from scratch

---
 pyforecaster/forecasting_models/holtwinters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 85d6f3f..7136870 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -189,6 +189,8 @@ class HoltWinters(ScenarioGenerator):
         y = x_pd[self.target_name].values
         x = x_pd.values
 
+        # states of a previous fit must not influence this one
+        self.a, self.b, self.s1, self.s2 = None, None, None, None
         y_hat_hw, self.a, self.b, self.s1, self.s2 = self._run(y)
 
         hw_target = hankel(y[1:], self.n_sa)
-- 
2.43.0


From 0f55d502331da96fdccddda80535b23df5c3cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 49/85] fix: Holt-Winters error quantiles are no longer all
 missing

---
 pyforecaster/forecasting_models/holtwinters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/holtwinters.py b/pyforecaster/forecasting_models/holtwinters.py
index 7136870..123f611 100644
--- a/pyforecaster/forecasting_models/holtwinters.py
+++ b/pyforecaster/forecasting_models/holtwinters.py
@@ -205,7 +205,7 @@ class HoltWinters(ScenarioGenerator):
             self.coeffs_output = np.zeros_like(self.coeffs_output)
         self.y_hat_tr = pd.DataFrame(y_hat_hw + x[:-self.n_sa, :] @ self.coeffs_output,
                                         index=x_pd.index[:-self.n_sa])
-        resid = hw_target - self.y_hat_tr
+        resid = hw_target - self.y_hat_tr.values
 
         self.y_tr = pd.DataFrame(hw_target, index=x_pd.index[:-self.n_sa])
 
-- 
2.43.0


From af6c89f46b06417f1b1e2c63b7f751033ccde42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:42 +0000
Subject: [PATCH 50/85] fix: the Kalman update does not reduce the covariance
 twice

---
 pyforecaster/utilities.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index 27050c6..4e17fa5 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -36,7 +36,6 @@ def kalman_update(x, P, y, H, R):
     S = np.dot(H, np.dot(P, H.T)) + R
     K = np.dot(P, np.dot(H.T, np.linalg.pinv(S)))
     x = x + np.dot(K, (y - np.dot(H , x)))
-    P = P - np.dot(K,np.dot(H, P))
     I_KH = np.eye(K.shape[0]) - np.dot(K, H)
     P = np.dot(I_KH,np.dot(P,I_KH.T)) + np.dot(K, np.dot(R, K.T))
     return x, P
-- 
2.43.0


From c3788c534c1514afd8e086e8c7ce8f70e27bac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 51/85] fix: stateful forecasters can be copied and pickled

---
 .../fast_adaptive_models.py                   | 22 +++----------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index c1ce966..a80235e 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -243,7 +243,7 @@ class Fourier_es(StatefulForecaster):
 
         # only store states if we are fitting
         if fit:
-            self.__setstate__({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
@@ -253,11 +253,6 @@ class Fourier_es(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
 
 
 
@@ -399,7 +394,7 @@ class FK(StatefulForecaster):
                                                                last_1sa_preds, eps, x, P, self.F, Q, self.H, R,
                                                                self.n_harmonics_int, w)
         if fit:
-            self.__setstate__({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
 
         preds = preds + preds_updated
         self.coeffs_t_history = coeffs_t_history.T
@@ -412,11 +407,6 @@ class FK(StatefulForecaster):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
 
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
 
 
 class FK_multi(StatefulForecaster):
@@ -571,7 +561,7 @@ class FK_multi(StatefulForecaster):
         if fit:
             # if we were fitting, store states. Do nothing if we're predicting
             # self.states = [self.models[j].__getstate__() for j in range(self.n_predictors)]
-            self.__setstate__({'Q':Q, 'R':R, 'P':P, 'x':x})
+            self.states.update({'Q':Q, 'R':R, 'P':P, 'x':x})
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
         return np.vstack(preds[1:])
@@ -579,9 +569,3 @@ class FK_multi(StatefulForecaster):
     def _predict_quantiles(self, x, **kwargs):
         preds = self.predict(x)
         return np.expand_dims(preds, -1) + np.expand_dims(self.err_distr, 0)
-
-    def __getstate__(self):
-        return self.states
-
-    def __setstate__(self, states):
-        self.states.update(states)
\ No newline at end of file
-- 
2.43.0


From 151ff7da9fd78fce2ed08747853f022d9656e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 52/85] fix: Fourier forecasters keep the phase of their basis
 between fit and predict

---
 .../fast_adaptive_models.py                   | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index a80235e..af0528d 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -182,7 +182,7 @@ class Fourier_es(StatefulForecaster):
         self.P_future = None
 
         self.hyperpar_lims = {'alpha': [0, 1], 'omega': [0, 1], 'n_harmonics': [1, m//2]}
-        self.states = {'x': None, 'w':np.zeros(m), 'eps':0, 'last_1sa_preds':0}
+        self.states = {'x': None, 'w':np.zeros(m), 'eps':0, 'last_1sa_preds':0, 't':0}
         self.reinit_pars()
 
 
@@ -191,6 +191,7 @@ class Fourier_es(StatefulForecaster):
         self.states['w'] = np.zeros(self.m)
         self.states['eps'] = 0
         self.states['last_1sa_preds'] = 0
+        self.states['t'] = 0
         self.store_basis()
 
     def store_basis(self):
@@ -211,6 +212,7 @@ class Fourier_es(StatefulForecaster):
         eps = states['eps']
         last_1sa_preds = states['last_1sa_preds']
         w_init = states['w']
+        t_0 = states['t']
 
         if x is None:
             x = np.zeros(2 * self.n_harmonics_int + 1)
@@ -223,9 +225,11 @@ class Fourier_es(StatefulForecaster):
         last_1sa_preds = np.copy(last_1sa_preds)
 
         for i in range(start_from, len(y)):
-            P_past = self.P_future[i % self.m:(i % self.m + self.m), :]
+            # phase of the basis, counted from the first observation ever seen
+            phase = (t_0 + i) % self.m
+            P_past = self.P_future[phase:(phase + self.m), :]
             # this is copy-pasting the Fourier smoothing in the last periodicity
-            P_f = self.P_future[i % self.m + self.m - self.periodicity:i % self.m + self.m -self.periodicity + self.n_sa, :]
+            P_f = self.P_future[phase + self.m - self.periodicity:phase + self.m -self.periodicity + self.n_sa, :]
             start = np.maximum(0, i-self.m+1)
 
             w = self.generate_recent_history(y, w_init, start, i)
@@ -243,7 +247,7 @@ class Fourier_es(StatefulForecaster):
 
         # only store states if we are fitting
         if fit:
-            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds, 't': (t_0 + len(y)) % self.m})
 
         if return_coeffs:
             return np.vstack(preds[1:]), np.vstack(coeffs_t_history)
@@ -257,12 +261,14 @@ class Fourier_es(StatefulForecaster):
 
 
 #@njit
-def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m, omega, last_1sa_preds, eps, x, P, F, Q, H, R, n_harmonics, w_init):
+def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m, omega, last_1sa_preds, eps, x, P, F, Q, H, R, n_harmonics, w_init, t_0=0):
     preds = []
     for i in range(start_from, len(y)):
-        P_past = Ps_future[i % m:(i % m + m), :]
+        # phase of the basis, counted from the first observation ever seen
+        phase = (t_0 + i) % m
+        P_past = Ps_future[phase:(phase + m), :]
         # this is copy-pasting the Fourier smoothing in the last periodicity
-        P_f = Ps_future[i % m + m  -period: i % m + m -period+h, :]
+        P_f = Ps_future[phase + m - period:phase + m - period + h, :]
 
         start = max(0, i - m + 1)
 
@@ -337,7 +343,7 @@ class FK(StatefulForecaster):
 
         self.hyperpar_lims = {'alpha': [0, 1], 'omega': [0, 1], 'n_harmonics': [1, self.m // 2], 'r': [0.001, 0.8],
                               'q': [0.001, 0.8]}
-        self.states = {'x': None, 'P': None, 'R': None, 'Q': None, 'w':np.zeros(m), 'eps':None, 'last_1sa_preds':0}
+        self.states = {'x': None, 'P': None, 'R': None, 'Q': None, 'w':np.zeros(m), 'eps':None, 'last_1sa_preds':0, 't':0}
         self.reinit_pars()
 
 
@@ -354,6 +360,7 @@ class FK(StatefulForecaster):
         self.states['w'] = np.zeros(self.m)
         self.states['eps'] = None
         self.states['last_1sa_preds'] = 0
+        self.states['t'] = 0
         self.P_future = None
         self.store_basis()
 
@@ -375,6 +382,7 @@ class FK(StatefulForecaster):
         P = states['P']
         x = states['x']
         w = states['w']
+        t_0 = states['t']
         eps = states['eps']
         last_1sa_preds = states['last_1sa_preds']
 
@@ -392,9 +400,9 @@ class FK(StatefulForecaster):
          x, P, Q, R, coeffs_t_history, w) = update_predictions(coeffs_t_history.T, start_from, y, self.P_future,
                                                                self.periodicity, self.n_sa, self.m, self.omega,
                                                                last_1sa_preds, eps, x, P, self.F, Q, self.H, R,
-                                                               self.n_harmonics_int, w)
+                                                               self.n_harmonics_int, w, t_0)
         if fit:
-            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds})
+            self.states.update({'x': x, 'P': P, 'R': R, 'Q': Q, 'w': w, 'eps': eps, 'last_1sa_preds': last_1sa_preds, 't': (t_0 + len(y)) % self.m})
 
         preds = preds + preds_updated
         self.coeffs_t_history = coeffs_t_history.T
-- 
2.43.0


From 72214de5d40560dfe701827555208e48c6a434b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 53/85] fix: FK_multi scores its experts on the forecasts of
 the last observation, not of the next one

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index af0528d..4c1ca5b 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -542,7 +542,7 @@ class FK_multi(StatefulForecaster):
                 # average last point error over different prediction times for all the models
                 last_obs = x_pd[self.target_name].iloc[i]
                 # sometimes persistence error is too small, sometimes signal could be small. We normalize by the average
-                norm_avg_err = [np.mean([np.abs(preds_experts[i-sa, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
+                norm_avg_err = [np.mean([np.abs(preds_experts[i-sa-1, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
                 norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err)
                 coeffs_t = np.exp(-np.array(norm_avg_err)) / np.exp(-np.array(norm_avg_err)).sum()
             else:
-- 
2.43.0


From 2e344f91cfa1ddc273114e19c16e78d61f48ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 54/85] fix: FK corrects its forecasts with the error of the
 last forecast, not with the next one

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index 4c1ca5b..d696aca 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -285,10 +285,12 @@ def update_predictions(coeffs_t_history, start_from, y, Ps_future, period, h, m,
         x, P = kalman(x, P, F, Q, coeffs_t, H, R)  # Assuming kalman is a Numba-compatible function
         coeffs = x
 
+        # error of the forecast that was made for this observation
+        eps = omega * (w[-1] - last_1sa_preds) + (1 - omega) * eps
+
         last_preds = np.dot(P_f, coeffs).ravel()
         last_1sa_preds = last_preds[0].copy()
 
-        eps = omega * (w[-1] - last_1sa_preds) + (1 - omega) * eps
         preds.append((last_preds + eps * (h - np.arange(h)) ** 2 / h ** 2).ravel())
         coeffs_t_history[:, i] = coeffs
 
-- 
2.43.0


From 0b0542b7555b615341d2c76f8dd7c81c1413f302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 55/85] fix: FK_multi forecasts are not missing when all the
 experts are exact

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index d696aca..afa86e5 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -545,7 +545,8 @@ class FK_multi(StatefulForecaster):
                 last_obs = x_pd[self.target_name].iloc[i]
                 # sometimes persistence error is too small, sometimes signal could be small. We normalize by the average
                 norm_avg_err = [np.mean([np.abs(preds_experts[i-sa-1, sa, predictor]-last_obs) for sa in range(self.n_sa)]) for predictor in range(self.n_predictors)]
-                norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err)
+                # all the models can be exact (e.g. constant signals)
+                norm_avg_err = np.array(norm_avg_err) / np.mean(norm_avg_err) if np.mean(norm_avg_err) > 0 else np.zeros(self.n_predictors)
                 coeffs_t = np.exp(-np.array(norm_avg_err)) / np.exp(-np.array(norm_avg_err)).sum()
             else:
                 coeffs_t = x
-- 
2.43.0


From 5f092dbb2553fade2fffe6a4c55d290352837ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 56/85] fix: the basis of Fourier forecasters is orthonormal
 also with all the harmonics of an even window

---
 pyforecaster/forecasting_models/fast_adaptive_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/fast_adaptive_models.py b/pyforecaster/forecasting_models/fast_adaptive_models.py
index afa86e5..991d5c7 100644
--- a/pyforecaster/forecasting_models/fast_adaptive_models.py
+++ b/pyforecaster/forecasting_models/fast_adaptive_models.py
@@ -21,6 +21,8 @@ def get_basis(t, l, n_h, frequencies=None):
   """
   frequencies = np.arange(n_h)+1 if frequencies is None else frequencies
   trigonometric = np.vstack([np.vstack([np.sin(2*np.pi*k*t/l), np.cos(2*np.pi*k*t/l)]) for k in frequencies])
+  # the cosine with two samples per period has twice the norm of the others
+  trigonometric = trigonometric / np.sqrt(np.where(2 * np.repeat(frequencies, 2) == l, 2, 1)).reshape(-1, 1)
   P = np.vstack([np.ones(len(t))/np.sqrt(2), trigonometric]).T * np.sqrt(2 / l)
   return P
 
-- 
2.43.0


From 5c9fe0bb8c37a45b74d6505e360c8e70597e8431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 57/85] fix: encoding categorical features does not modify the
 data of the caller

---
 pyforecaster/forecaster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index ce41fac..8bc6623 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -29,8 +29,11 @@ def encode_categorical(func):
         if not hasattr(self, '_le'):
             self._le = {}
 
-        # Check if x contains columns that are not numbers and encode them
-        for column in x.select_dtypes(include=['object', 'category']).columns:
+        # Check if x contains columns that are not numbers and encode them, in a copy of the data of the caller
+        columns = x.select_dtypes(include=['object', 'category']).columns
+        if len(columns) > 0:
+            x = x.copy()
+        for column in columns:
             if column not in self._le:
                 # Create and fit a new encoder for the column if it's the first encounter
                 le = LabelEncoder()
-- 
2.43.0


From 57ef87329183eebaf193524ffefb11814db6078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 58/85] fix: models with categorical features can be fitted
 again on other categories

---
 pyforecaster/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecaster.py b/pyforecaster/forecaster.py
index 8bc6623..0bf3a1c 100644
--- a/pyforecaster/forecaster.py
+++ b/pyforecaster/forecaster.py
@@ -34,8 +34,8 @@ def encode_categorical(func):
         if len(columns) > 0:
             x = x.copy()
         for column in columns:
-            if column not in self._le:
-                # Create and fit a new encoder for the column if it's the first encounter
+            if column not in self._le or func.__name__ == 'fit':
+                # Create and fit a new encoder for the column if it's the first encounter or the model is being fitted again
                 le = LabelEncoder()
                 x[column] = le.fit_transform(x[column].astype(str))
                 self._le[column] = le  # Store the encoder for future use
-- 
2.43.0


From f98baf835f45f452992995006366048d81c246a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 59/85] fix: cross validation folds are positions, also for
 random folds and stored results

---
 pyforecaster/trainer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 077b051..8ae9778 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -35,6 +35,9 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
     :param cv_kwargs: additional arguments to be passed to the cross validation function
     :return:
     """
+    # folds are iterated more than once
+    cv_folds = list(cv_folds)
+
     # create generator
     cv_gen = (f for f in cv_folds)
 
@@ -51,12 +54,12 @@ def cross_validate(x: pd.DataFrame, y: pd.DataFrame, model, cv_folds, scoring=No
             trial.set_user_attr('cv_test_scores', scores)
 
         if storage_fun:
-            cv_results['y_te'] = {'fold_{}'.format(i): y.loc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
-            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.loc[cv_idxs[1]]) for i, cv_idxs, m in
+            cv_results['y_te'] = {'fold_{}'.format(i): y.iloc[cv_idxs[1]] for i, cv_idxs in enumerate(cv_folds)}
+            cv_results['y_hat'] = {'fold_{}'.format(i): m.predict(x.iloc[cv_idxs[1]]) for i, cv_idxs, m in
                                    zip(range(len(cv_folds)), cv_folds, cv_results['estimator'])}
     elif cv_type == 'random_fold':
         tr_idx, te_idx = cv_folds[np.random.choice(len(cv_folds), 1)[0]]
-        x_tr, x_te, y_tr, y_te = x.loc[tr_idx], x.loc[te_idx], y.loc[tr_idx], y.loc[te_idx]
+        x_tr, x_te, y_tr, y_te = x.iloc[tr_idx], x.iloc[te_idx], y.iloc[tr_idx], y.iloc[te_idx]
         model.fit(x_tr, y_tr)
         y_hat = model.predict(x_te)
         cv_results = {k:np.atleast_1d(s(model, x_te, y_te)) for k, s in scoring.items()} if isinstance(scoring, dict) else {'test_score': np.atleast_1d(scoring(model, x_te, y_te))}
-- 
2.43.0


From b90fb4ed86e453c8e0293f7c9b10ef7d7edd8892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 60/85] fix: random folds can be scored with several metrics

---
 pyforecaster/trainer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyforecaster/trainer.py b/pyforecaster/trainer.py
index 8ae9778..5ee8976 100644
--- a/pyforecaster/trainer.py
+++ b/pyforecaster/trainer.py
@@ -16,6 +16,9 @@ def default_param_space_fun(trial):
 
 def get_score_key(cv_results, scoring, score_key=None):
     fallback_name = 'test_' + list(scoring.keys())[0] if isinstance(scoring, dict) else list(cv_results.keys())[-1]
+    if isinstance(scoring, dict) and fallback_name not in cv_results:
+        # random folds are stored without prefix
+        fallback_name = list(scoring.keys())[0]
     fallback_name = 'test_score' if 'test_score' in cv_results.keys() else fallback_name
     score_key = score_key if score_key is not None else fallback_name
     return score_key
-- 
2.43.0


From 7b7c272598a089f5221e2bd4b6e9c9a0a40bc5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 61/85] fix: sigma of probabilistic networks is a standard
 deviation in the units of the target

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index dc35e97..126b475 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -471,9 +471,12 @@ class NN(ScenarioGenerator):
         if self.normalize_target:
             if self.probabilistic:
                 y_hat[:, :y_hat.shape[1]//2] = self.target_scaler.inverse_transform(y_hat[:, :y_hat.shape[1]//2])
-                y_hat[:, y_hat.shape[1] // 2:] = self.target_scaler.inverse_transform((y_hat[:, y_hat.shape[1] // 2:])**0.5)
+                # standard deviations are only scaled, they have no offset
+                y_hat[:, y_hat.shape[1] // 2:] = (y_hat[:, y_hat.shape[1] // 2:])**0.5 * self.target_scaler.scale_
             else:
                 y_hat = self.target_scaler.inverse_transform(y_hat)
+        elif self.probabilistic:
+            y_hat[:, y_hat.shape[1] // 2:] = (y_hat[:, y_hat.shape[1] // 2:])**0.5
         if self.probabilistic:
             preds = pd.DataFrame(y_hat[:, :y_hat.shape[1] // 2], index=inputs.index, columns=self.target_columns)
             sigmas = pd.DataFrame(y_hat[:, y_hat.shape[1] // 2:], index=inputs.index, columns=self.target_columns)
-- 
2.43.0


From 81013c9f322941e2f570fc040def86585d00a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 62/85] fix: quantiles of LSTM networks can be predicted

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 126b475..184bdc1 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -488,7 +488,6 @@ class NN(ScenarioGenerator):
             return pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
 
     def predict_quantiles(self, inputs, normalize=True, **kwargs):
-        inputs, _ = self.check_inputs(inputs, None)
         if self.probabilistic:
             if normalize:
                 mu_hat, sigma_hat = self.predict(inputs, return_sigma=True)
-- 
2.43.0


From f7f3e260cbd443c4632dd27858ca36ba74741256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 63/85] fix: the inverse of the activation of invertible
 networks does not overflow for large values

---
 pyforecaster/forecasting_models/neural_models/layers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/layers.py b/pyforecaster/forecasting_models/neural_models/layers.py
index 14b7e46..634033a 100644
--- a/pyforecaster/forecasting_models/neural_models/layers.py
+++ b/pyforecaster/forecasting_models/neural_models/layers.py
@@ -61,10 +61,10 @@ def linloglin_inverse(y: jnp.ndarray, k=10) -> jnp.ndarray:
     left_linear_inv = (y + q) / m
 
     # Inverse of the left logarithmic part
-    left_log_inv = 1 - jnp.exp(-y)
+    left_log_inv = 1 - jnp.exp(jnp.clip(-y, None, jnp.log(k + 1)))  # clipped outside its range, where it would overflow
 
     # Inverse of the right logarithmic part
-    right_log_inv = jnp.exp(y) - 1
+    right_log_inv = jnp.exp(jnp.clip(y, None, jnp.log(k + 1))) - 1
 
     # Inverse of the right linear part
     right_linear_inv = (y - q) / m
-- 
2.43.0


From e34df17406d2966a138e94d57fe7460a6563482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 64/85] fix: inverted values of causal invertible networks keep
 their index

---
 pyforecaster/forecasting_models/neural_models/INN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index fad2272..7fe61a7 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -169,7 +169,7 @@ class CausalInvertibleNN(NN):
         y_np = invert(self.pars, y.values, self.model)
         if self.input_scaler is not None:
             y_np = self.input_scaler.inverse_transform(y_np)
-        return pd.DataFrame(y_np, columns=y.columns)
+        return pd.DataFrame(y_np, index=y.index, columns=y.columns)
 
     def reorder_inputs(self, inputs):
         if self.n_exogenous > 0:
-- 
2.43.0


From e987f47c98e4daa43c107f4c2dc4d6d67e1bf05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:13 +0000
Subject: [PATCH 65/85] fix: causal networks can be fitted without
 probabilistic loss

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 7b62528..eaf3305 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -333,7 +333,7 @@ class PICNN(NN):
         if self.causal_df is not None:
             causal_df = (~self.causal_df.astype(bool)).astype(float)
             causal_matrix = np.tile(causal_df.values, 2) if self.probabilistic else causal_df.values
-            self.loss_fn = jitting_wrapper(causal_loss_fn, self.model, causal_matrix=causal_matrix, kind=self.probabilistic_loss_kind) \
+            self.loss_fn = jitting_wrapper(causal_loss_fn, self.model, causal_matrix=causal_matrix) \
                 if not self.probabilistic else jitting_wrapper(probabilistic_causal_loss_fn, self.model, causal_matrix=causal_matrix, kind=self.probabilistic_loss_kind)
         else:
             self.loss_fn = jitting_wrapper(loss_fn, self.predict_batch) if not self.probabilistic else jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution)
-- 
2.43.0


From 2cc17ff0d77c33d3b524f47bbd5a313957277e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 66/85] fix: identity and inverse activations of invertible
 layers are inverted by their own inverse

---
 pyforecaster/forecasting_models/neural_models/layers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/layers.py b/pyforecaster/forecasting_models/neural_models/layers.py
index 634033a..712d468 100644
--- a/pyforecaster/forecasting_models/neural_models/layers.py
+++ b/pyforecaster/forecasting_models/neural_models/layers.py
@@ -244,8 +244,12 @@ class CausalInvertibleLayer(nn.Module):
             return jnp.where(y >= 0, y, y / self.negative_slope)
         elif name == "softplus":
             return inverse_softplus(jnp.maximum(1e-6, y))
-        elif name == "invcondiff" or name == "invcondiff_inverse" or name == "identity":
+        elif name == "invcondiff":
             return invcondiff_inverse(y)
+        elif name == "invcondiff_inverse":
+            return invcondiff(y)
+        elif name == "identity":
+            return y
         elif name == "linloglin":
             return linloglin_inverse(y)
         else:
-- 
2.43.0


From 3c7f37e10b2646482d900310bd74b826ab786518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 67/85] fix: convex networks can be used without normalized
 inputs

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index eaf3305..54ebc98 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -352,8 +352,9 @@ class PICNN(NN):
     def get_normalized_inputs(self, inputs, target=None):
         inputs = inputs.copy()
         self.to_be_normalized = [c for c in inputs.columns if c not in self.unnormalized_inputs] if self.unnormalized_inputs is not None else inputs.columns
-        normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
-        inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
+        if self.input_scaler is not None:
+            normalized_inputs = self.input_scaler.transform(inputs[self.to_be_normalized])
+            inputs.loc[:, self.to_be_normalized] = normalized_inputs.copy().values
 
         x = inputs[[c for c in inputs.columns if not c in self.optimization_vars]].values
         y = inputs[self.optimization_vars].values
@@ -406,7 +407,8 @@ class PICNN(NN):
 
         inputs.loc[:, self.optimization_vars] = y.ravel()
         inputs.loc[:, [c for c in inputs.columns if c not in  self.optimization_vars]] = x.ravel()
-        inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
+        if self.input_scaler is not None:
+            inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
         target_opt = self.predict(inputs)
 
         y_opt = inputs.loc[:, self.optimization_vars].values.ravel()
@@ -768,7 +770,8 @@ class LatentStructuredPICNN(PICNN):
 
         inputs.loc[:, self.optimization_vars] = ctrl.ravel()
         inputs.loc[:, [c for c in inputs.columns if c not in  self.optimization_vars]] = x.ravel()
-        inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
+        if self.input_scaler is not None:
+            inputs.loc[:, self.to_be_normalized] = self.input_scaler.inverse_transform(inputs[self.to_be_normalized].values)
         target_opt = self.predict(inputs)
 
         y_opt = inputs.loc[:, self.optimization_vars].values.ravel()
-- 
2.43.0


From 8403b11b7715b2b634ad388cb90ac2b2e843e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:15 +0000
Subject: [PATCH 68/85] fix: RecStablePICNN augments its control inputs when
 asked to

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 54ebc98..5a60558 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -532,7 +532,8 @@ class RecStablePICNN(PICNN):
         self.optimizer = optax.adamw(learning_rate=self.learning_rate)
         self.model = PICNN_module(num_layers=self.n_layers, features_x=self.n_hidden_x, features_y=self.n_hidden_y,
                               features_out=self.n_out, features_latent=self.n_latent, activation=nn.relu,
-                              init_type=self.init_type, probabilistic=self.probabilistic,z_min=z_min,
+                              init_type=self.init_type, augment_ctrl_inputs=self.augment_ctrl_inputs,
+                              probabilistic=self.probabilistic,z_min=z_min,
                               z_max=z_max)
         self.predict_batch = vmap(jitting_wrapper(predict_batch_picnn, self.model), in_axes=(None, 0))
         self.loss_fn = jitting_wrapper(probabilistic_loss_fn, self.predict_batch, kind=self.probabilistic_loss_kind, distribution=self.distribution) if self.probabilistic else (
-- 
2.43.0


From 7aeaf49ec05a48f4e559a3afd35c49ef97e187cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 69/85] fix: optimizing with less than ten iterations returns
 the result of the first ones

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 5a60558..6dbf2e4 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -393,6 +393,7 @@ class PICNN(NN):
         y, values_old = self.iterate(x, y, opt_state, **objective_kwargs)
         values_init = np.copy(values_old)
 
+        i, values = -1, values_old
         # do 10 iterations at a time to speed up, check for convergence
         for i in range(n_iter//10):
             y, values = self.iterate(x, y, opt_state, **objective_kwargs)
@@ -741,6 +742,7 @@ class LatentStructuredPICNN(PICNN):
 
         l = vmap(jit(partial(latent_pred, params=self.pars, model=self.model, x=x)), in_axes=(0))
 
+        i, values = -1, values_old
         # do 10 iterations at a time to speed up, check for convergence
         ctrl_history = [np.vstack(ctrl_embedding_history_0)]
         sol_history = [np.vstack(l(ctrl_embedding=np.vstack(ctrl_embedding_history_0)))]
-- 
2.43.0


From eaf7366ac5add0eb5f35bf05ff1d31c9a253ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:47 +0000
Subject: [PATCH 70/85] fix: quantiles of structured convex networks without
 sigma

---
 pyforecaster/forecasting_models/neural_models/ICNN.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 6dbf2e4..4044423 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -618,6 +618,9 @@ class StructuredPICNN(PICNN):
 
 
     def predict_quantiles(self, inputs, normalize=True, **kwargs):
+        if not self.probabilistic:
+            # sigma of the objective is not available, quantiles of the targets as for the other networks
+            return super().predict_quantiles(inputs, normalize=normalize, **kwargs)
         if normalize:
             y_hat, objs_hat, sigma_hat = self.predict(inputs, return_sigma=True, return_obj=True)
             objs_hat = objs_hat.values
-- 
2.43.0


From c1f2452500fb27c6b4e663bcee902e5377c7968a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:22 +0000
Subject: [PATCH 71/85] fix: tensors of a part of a quantile table have its own
 shape

---
 pyforecaster/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/utilities.py b/pyforecaster/utilities.py
index 4e17fa5..56831ab 100644
--- a/pyforecaster/utilities.py
+++ b/pyforecaster/utilities.py
@@ -14,7 +14,8 @@ def from_tensor_to_pdmultiindex(x, index, first_index, second_index):
 def convert_multiindex_pandas_to_tensor(df, zero_first=True):
     if df.columns.nlevels < 2:
         return df
-    c_shape = df.columns.levshape
+    # a part of a table keeps the labels of the whole one among its levels
+    c_shape = df.columns.remove_unused_levels().levshape
     if zero_first:
         return df.values.reshape(-1, c_shape[0], c_shape[1])
     else:
-- 
2.43.0


From 1e6a5adefd3822b3183782bd4f6431975f85243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 72/85] fix: summary scores do not rename the columns of the
 forecasts of the caller

---
 pyforecaster/metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 999cb54..58b8144 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -145,7 +145,8 @@ def summary_score(x, t, score=rmse, agg_index=None):
             if not isinstance(t, pd.DataFrame):
                 t = pd.DataFrame(t, index=x.index)
         elif isinstance(x, pd.DataFrame) and isinstance(t, pd.DataFrame):
-            x.columns = t.columns
+            # same labels, in a copy of the forecasts of the caller
+            x = x.set_axis(t.columns, axis=1)
         elif isinstance(x, pd.DataFrame):
             t = pd.DataFrame(t, index=x.index, columns=x.columns)
         elif isinstance(t, pd.DataFrame):
-- 
2.43.0


From 124574fb8e8bb2424f35415af30ac3b09125fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 73/85] fix: summary scores keep integer and text labels when
 another aggregation is continuous

---
 pyforecaster/metrics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/metrics.py b/pyforecaster/metrics.py
index 58b8144..d02141c 100644
--- a/pyforecaster/metrics.py
+++ b/pyforecaster/metrics.py
@@ -170,11 +170,11 @@ def summary_scores(x, t, metrics, idxs: pd.DataFrame, mask=None, n_quantiles=10)
     t = t if mask is None else t * mask[mask].values
 
     # quantize non-integer data
-    if np.any(~agg_indexes.dtypes.isin([np.dtype('int'), np.dtype('int32'), np.dtype('int8'), np.dtype('int64'), np.dtype('object')])):
-        qcuts = [pd.qcut(agg_indexes.loc[:, k], n_quantiles, duplicates='drop') for k in agg_indexes.columns if agg_indexes[k].dtype != int and len(agg_indexes[k].value_counts())>=n_quantiles]
-        if len(qcuts)>0:
-            replacement_idxs = [agg_indexes[k].dtype != int and len(agg_indexes[k].value_counts())>=n_quantiles for k in agg_indexes.columns]
-            agg_indexes.loc[:, replacement_idxs] = pd.concat(qcuts, axis=1)
+    replacement_idxs = [not pd.api.types.is_integer_dtype(agg_indexes[k]) and agg_indexes[k].dtype != object
+                        and len(agg_indexes[k].value_counts())>=n_quantiles for k in agg_indexes.columns]
+    if np.any(replacement_idxs):
+        qcuts = [pd.qcut(agg_indexes.loc[:, k], n_quantiles, duplicates='drop') for k in agg_indexes.columns[replacement_idxs]]
+        agg_indexes.loc[:, replacement_idxs] = pd.concat(qcuts, axis=1)
 
     scores_df = {}
     for m in metrics:
-- 
2.43.0


From 712d342289c6f06765aa9a9356b12e9792dfeaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 74/85] fix: random-feature regressions denormalise their
 forecasts with the original features

---
 .../forecasting_models/random_fourier_features.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 748ac21..7aee4a7 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -348,8 +348,8 @@ class RFFRegression(RandomFFRegressor, ScenarioGenerator):
         return self
 
     def predict(self, x, **kwargs):
-        x = pd.DataFrame(self.scaler.transform(x), index=x.index)
-        y_hat = RandomFFRegressor.predict(self, x, **kwargs)
+        x_scaled = pd.DataFrame(self.scaler.transform(x), index=x.index)
+        y_hat = RandomFFRegressor.predict(self, x_scaled, **kwargs)
         y_hat = self.anti_transform(x, y_hat)
         return y_hat
     def _predict_quantiles(self, x:pd.DataFrame, **kwargs):
@@ -386,10 +386,10 @@ class AdditiveRFFRegression(ScenarioGenerator):
 
     def predict(self, x, **kwargs):
         """Boosting predict."""
-        x = pd.DataFrame(self.scaler.transform(x), index=x.index)
+        x_scaled = pd.DataFrame(self.scaler.transform(x), index=x.index)
         y_hat = pd.DataFrame(np.zeros((x.shape[0], len(self.models[0].target_cols))), index=x.index, columns=self.target_cols)
         for m in self.models:
-            y_hat += m.predict(x)
+            y_hat += m.predict(x_scaled)
 
         y_hat = self.anti_transform(x, y_hat)
         return y_hat
-- 
2.43.0


From f4e9111c99e8f1167b647161f2e117c00b3eb030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 75/85] fix: neural networks return forecasts in the units of
 the original target also when it was normalised by the formatter

---
 pyforecaster/forecasting_models/neural_models/INN.py   |  2 +-
 .../forecasting_models/neural_models/base_nn.py        | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 7fe61a7..d4218fc 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -221,7 +221,7 @@ class CausalInvertibleNN(NN):
 
         y_hat = pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
 
-        return y_hat
+        return self.anti_transform(inputs, y_hat)
 
     def predict_quantiles(self, x, **kwargs):
         preds = np.expand_dims(self.predict(x), -1) * np.ones((1, 1, len(self.q_vect)))
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 184bdc1..9213027 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -480,12 +480,16 @@ class NN(ScenarioGenerator):
         if self.probabilistic:
             preds = pd.DataFrame(y_hat[:, :y_hat.shape[1] // 2], index=inputs.index, columns=self.target_columns)
             sigmas = pd.DataFrame(y_hat[:, y_hat.shape[1] // 2:], index=inputs.index, columns=self.target_columns)
+            mu = self.anti_transform(inputs, preds)
             if return_sigma:
-                return preds, sigmas
+                if mu is not preds:
+                    # standard deviations are only scaled by the denormalisation
+                    sigmas = self.anti_transform(inputs, preds + sigmas) - mu
+                return mu, sigmas
             else:
-                return preds
+                return mu
         else:
-            return pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns)
+            return self.anti_transform(inputs, pd.DataFrame(y_hat, index=inputs.index, columns=self.target_columns))
 
     def predict_quantiles(self, inputs, normalize=True, **kwargs):
         if self.probabilistic:
-- 
2.43.0


From d4a988b4f848921cc489a450c3e19ad05f49c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 76/85] fix: saved neural networks keep quantile levels,
 errors, scenario generator, formatter and settings

---
 pyforecaster/forecasting_models/neural_models/ICNN.py    | 4 ++--
 pyforecaster/forecasting_models/neural_models/base_nn.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/ICNN.py b/pyforecaster/forecasting_models/neural_models/ICNN.py
index 4044423..fc3639d 100644
--- a/pyforecaster/forecasting_models/neural_models/ICNN.py
+++ b/pyforecaster/forecasting_models/neural_models/ICNN.py
@@ -312,12 +312,12 @@ class PICNN(NN):
                        })
 
         self.n_hidden_y = 2 * len(self.optimization_vars) if augment_ctrl_inputs else len(self.optimization_vars)
-        self.inverter_optimizer = inverter_class(learning_rate=self.inverter_learning_rate)
-
         super().__init__(learning_rate, batch_size, load_path, n_hidden_x, n_out, n_layers, pars, q_vect, val_ratio,
                          nodes_at_step, n_epochs, savepath_tr_plots, stats_step, rel_tol, unnormalized_inputs,
                          normalize_target, stopping_rounds, subtract_mean_when_normalizing, causal_df,
                          probabilistic, probabilistic_loss_kind, **scengen_kwgs)
+        # after loading, which can change the settings of the optimizer
+        self.inverter_optimizer = self.inverter_class(learning_rate=self.inverter_learning_rate)
 
 
     def set_arch(self):
diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 9213027..597621c 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -291,7 +291,8 @@ class NN(ScenarioGenerator):
 
     def get_serializable_properties(self):
         attrs = {}
-        for key, value in self.get_class_properties().items():
+        # the state of the forecaster (error distributions, formatter, scenario generator...) is only in the instance
+        for key, value in {**self.get_class_properties(), **self.__dict__}.items():
             if key in self._runtime_serialization_excludes():
                 continue
             try:
-- 
2.43.0


From eb756c2bbc5187179b868e1502b1d2bce3be76e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 77/85] fix: the width of the prediction layers of invertible
 networks is the requested one

---
 pyforecaster/forecasting_models/neural_models/INN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index d4218fc..4285c4a 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -130,7 +130,7 @@ class CausalInvertibleNN(NN):
         self.set_attr({"names_exogenous": names_exogenous,
                        "end_to_end": end_to_end,
                        "n_prediction_layers": n_prediction_layers,
-                       "num_embedding_layers": n_hidden_y,
+                       "n_hidden_y": n_hidden_y,
                        "n_exogenous":len(names_exogenous) if names_exogenous is not None else 0,
                        "scaling_factor": scaling_factor})
         assert n_in - self.n_exogenous >= n_out, ('the history length must be greater than the forecast horizon to '
-- 
2.43.0


From 1b72ec5cc05a067bec182fccce1a878acd384ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 78/85] fix: saved invertible networks are loaded with their
 own sizes

---
 pyforecaster/forecasting_models/neural_models/INN.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index 4285c4a..d16d2e1 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -133,7 +133,7 @@ class CausalInvertibleNN(NN):
                        "n_hidden_y": n_hidden_y,
                        "n_exogenous":len(names_exogenous) if names_exogenous is not None else 0,
                        "scaling_factor": scaling_factor})
-        assert n_in - self.n_exogenous >= n_out, ('the history length must be greater than the forecast horizon to '
+        assert load_path is not None or n_in - self.n_exogenous >= n_out, ('the history length must be greater than the forecast horizon to '
                                                       'learn an efficiently invertible causal transformation')
         super().__init__(learning_rate, batch_size, load_path, n_in, n_out, n_layers, pars, q_vect, val_ratio,
                          nodes_at_step, n_epochs, savepath_tr_plots, stats_step, rel_tol, unnormalized_inputs,
-- 
2.43.0


From a87f2b762b8e24f0fa727de0d791af42db932603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 79/85] fix: long weekends across the new year do not depend on
 the rows transformed together

---
 pyforecaster/formatter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index bc4c825..95e8290 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -92,7 +92,10 @@ class Formatter:
 
     def add_holidays(self, x, state_code='CH', **kwargs):
         self.logger.debug('Adding holidays')
-        holidays = holidays_api.country_holidays(country=state_code, years=x.index.year.unique(), **kwargs)
+        # bridges and long weekends at the limits of the data depend on the holidays of the days around them
+        around = pd.DatetimeIndex([x.index[0] - pd.Timedelta('3D'), x.index[-1] + pd.Timedelta('3D')])
+        years = x.index.year.union(around.year).unique()
+        holidays = holidays_api.country_holidays(country=state_code, years=years, **kwargs)
         bridges, long_weekends = spot_holiday_bridges(start=x.index[0]-pd.Timedelta('2D'), end=x.index[-1]+pd.Timedelta('2D'), holidays=pd.DatetimeIndex(holidays.keys()))
         bridges = np.array([b.date() for b in bridges])
         long_weekends = np.array([b.date() for b in long_weekends])
-- 
2.43.0


From ded6a54915d96afec96d42b88691145004e385b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 80/85] fix: UTC offset at prediction time of tables without
 other features

---
 pyforecaster/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/formatter.py b/pyforecaster/formatter.py
index 95e8290..c330a91 100644
--- a/pyforecaster/formatter.py
+++ b/pyforecaster/formatter.py
@@ -75,7 +75,7 @@ class Formatter:
         else:
             if self.timezone:
                 if tz is not None:
-                    utc_offset = x.apply(lambda x: x.name.utcoffset().total_seconds()/3600, axis=1)
+                    utc_offset = np.array([t.utcoffset().total_seconds() / 3600 for t in x.index])
                 else:
                     self.logger.warning('I am setting UTC offset feature to zero since the timeindex you passed was '
                                         'not time zone localized')
-- 
2.43.0


From 52eb21ed24868c61a386b64c61f7fac54a504925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 81/85] fix: random-feature regressions keep their kernel
 settings when cloned and follow set_params

---
 .../random_fourier_features.py                | 48 +++++++++++++++++--
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 7aee4a7..8c38e95 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -204,11 +204,32 @@ class Base:
         Notes:
             If `W` is None then the appropriate matrix will be set just before the training.
         """
-        self.dim = dim_kernel
-        self.s_k = std_kernel
-        self.mat = get_matrix_generator(rand_type, std_kernel, dim_kernel)
+        self.rand_type  = rand_type
+        self.dim_kernel = dim_kernel
+        self.std_kernel = std_kernel
         self.W   = W
         self.b   = b
+        self.generated = None
+        self.mat  # the type of the matrix is checked here
+
+    @property
+    def mat(self):
+        return get_matrix_generator(self.rand_type, self.std_kernel, self.dim_kernel)
+
+    def reset_weight(self, dim_in):
+        """
+        Set the random matrices before training. Those generated with other settings (the parameters may have been
+        changed through set_params) or for inputs of another size are generated again, the ones given by the user are kept.
+
+        Args:
+            dim_in (int): Input dimension of the random matrix.
+        """
+        settings = (self.rand_type, dim_in, self.dim_kernel, self.std_kernel)
+        if self.generated is not None and self.generated != settings:
+            self.W, self.b = None, None
+        if self.W is None:
+            self.generated = settings
+        self.set_weight(dim_in)
 
     def conv(self, x, index=None):
         """
@@ -272,6 +293,7 @@ class RandomFFRegressor(Base):
             args       (dict)      : Extra arguments. This arguments will be passed to the constructor of sklearn's LinearRegression model.
         """
         Base.__init__(self, rand_type, dim_kernel, std_kernel, W, b)
+        self.base_model = reg_fun
         self.reg = reg_fun()
         self.target_cols = None
 
@@ -288,7 +310,8 @@ class RandomFFRegressor(Base):
         Returns:
             (rfflearn.cpu.Regression): Fitted estimator.
         """
-        self.set_weight(x.shape[1])
+        self.reset_weight(x.shape[1])
+        self.reg = self.base_model()
         self.reg.fit(self.conv(x), y, **args)
         self.target_cols = y.columns
         return self
@@ -366,13 +389,28 @@ class AdditiveRFFRegression(ScenarioGenerator):
     def __init__(self, n_models, dim_kernel=16, std_kernel=0.1, W=None, b=None, q_vect=None, nodes_at_step=None,
                  val_ratio=None, logger=None, n_scen_fit=100, additional_node=False, base_model=LinearRegression, **scengen_kwgs):
         self.n_models = n_models
-        self.models = [RandomFFRegressor("rff", base_model, dim_kernel, std_kernel, W, b) for _ in range(n_models)]
+        self.dim_kernel = dim_kernel
+        self.std_kernel = std_kernel
+        self.W = W
+        self.b = b
+        self.base_model = base_model
+        self.models = []
+        self.set_models()
         ScenarioGenerator.__init__(self, q_vect, nodes_at_step=nodes_at_step, val_ratio=val_ratio, logger=logger,
                                    n_scen_fit=n_scen_fit, additional_node=additional_node, **scengen_kwgs)
         self.scaler = None
 
+    def set_models(self):
+        """The models follow the parameters, which may have been changed through set_params."""
+        missing = self.n_models - len(self.models)
+        self.models = self.models[:self.n_models] + [RandomFFRegressor("rff", self.base_model, self.dim_kernel, self.std_kernel,
+                                                                       self.W, self.b) for _ in range(missing)]
+        for m in self.models:
+            m.base_model, m.dim_kernel, m.std_kernel = self.base_model, self.dim_kernel, self.std_kernel
+
     def fit(self, x, y, **args):
         """Boosting fit."""
+        self.set_models()
         self.scaler = sklearn.preprocessing.StandardScaler().fit(x)
         x, y, x_val, y_val = self.train_val_split(x, y)
         x = pd.DataFrame(self.scaler.transform(x), index=x.index)
-- 
2.43.0


From 1c009e39555c7177364fe21e797b919db5cf71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 82/85] fix: neural networks are trained also when there are
 fewer rows than the batch size

---
 pyforecaster/forecasting_models/neural_models/base_nn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyforecaster/forecasting_models/neural_models/base_nn.py b/pyforecaster/forecasting_models/neural_models/base_nn.py
index 597621c..9682874 100644
--- a/pyforecaster/forecasting_models/neural_models/base_nn.py
+++ b/pyforecaster/forecasting_models/neural_models/base_nn.py
@@ -359,6 +359,8 @@ class NN(ScenarioGenerator):
 
         self.target_columns = targets.columns
         batch_size = self.batch_size if self.batch_size is not None else inputs.shape[0] // 10
+        # with few rows there is still one batch of them
+        batch_size = max(1, min(batch_size, inputs.shape[0]))
         num_batches = inputs.shape[0] // batch_size
 
         inputs, targets = self.get_normalized_inputs(inputs, targets)
-- 
2.43.0


From 3b64a4dff4801591a9a924b40abdf7ec89137388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 83/85] fix: forests accept the pruning period at prediction
 time

---
 pyforecaster/forecasting_models/randomforests.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/randomforests.py b/pyforecaster/forecasting_models/randomforests.py
index ea88e5b..c7de7c7 100644
--- a/pyforecaster/forecasting_models/randomforests.py
+++ b/pyforecaster/forecasting_models/randomforests.py
@@ -134,7 +134,7 @@ class QRF(ScenarioGenerator):
     @encode_categorical
     def predict(self, x, **kwargs):
         preds = []
-        period = kwargs['period'] if 'period' in kwargs else '24h'
+        period = kwargs.pop('period', '24h')
         if self.parallel:
             with concurrent.futures.ThreadPoolExecutor(max_workers=self.max_parallel_workers) as executor:
                 preds = [i for i in tqdm(executor.map(partial(self._predict, x=x, period=period, **kwargs), range(self.n_single)),total=self.n_single)]
-- 
2.43.0


From 6ae682339ee58caba2f0beada08361f24be07550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 84/85] fix: boosted binned regression gives no missing
 forecasts for values between the training ones

---
 pyforecaster/forecasting_models/random_fourier_features.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyforecaster/forecasting_models/random_fourier_features.py b/pyforecaster/forecasting_models/random_fourier_features.py
index 8c38e95..dd4fa2b 100644
--- a/pyforecaster/forecasting_models/random_fourier_features.py
+++ b/pyforecaster/forecasting_models/random_fourier_features.py
@@ -39,7 +39,8 @@ def compute_coeffs(y, x, x_binned, n_bins):
             #y_diff = selected_y - y_means[j, :]
             #coeffs[j, :] = y_diff.T @ x_diff / (np.sum(x_diff ** 2) + 1e-12)
         else:
-            y_means[j, :] = np.nan  # or 0 if you prefer
+            # no training row in this bin: nothing to be corrected
+            y_means[j, :] = 0
 
     return y_means, x_means, coeffs
 
-- 
2.43.0


From 1faaf66b017f9c44fec23981a1f549e6f4ae396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 85/85] fix: quasi end-to-end loss compares each step with the
 previous one, also for one-step targets (the error was divided by zero)

---
 pyforecaster/forecasting_models/neural_models/INN.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyforecaster/forecasting_models/neural_models/INN.py b/pyforecaster/forecasting_models/neural_models/INN.py
index d16d2e1..1107b1e 100644
--- a/pyforecaster/forecasting_models/neural_models/INN.py
+++ b/pyforecaster/forecasting_models/neural_models/INN.py
@@ -27,11 +27,13 @@ def quasi_end_to_end_loss_fn(params, inputs, targets, model=None, embedder=None,
 
     # retrieve the embedding of the target
     inputs_future = jnp.hstack([inputs[:, targets.shape[1]:], targets])
-    e_target = embedder(params, inputs_future)[:, -targets.shape[1]:]
+    e_future = embedder(params, inputs_future)
+    e_target = e_future[:, -targets.shape[1]:]
 
     # make them match
     err = e_target - e_target_hat
-    persistent_error = e_target - jnp.roll(e_target, 1, axis=1)
+    # persistence: the previous value of the embedded series, also for the first step
+    persistent_error = (e_future - jnp.roll(e_future, 1, axis=1))[:, -targets.shape[1]:]
     skill_score = jnp.mean(err**2) / jnp.mean(persistent_error**2)
     return skill_score
 
-- 
2.43.0

