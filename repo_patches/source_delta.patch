From 04ea7a1952d088bcc358372738b236559bfd95a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 01/46] fix: make checkpoints loadable with torch >= 2.6

t.load now defaults to weights_only=True, which cannot read the numpy
arrays which save_checkpoint stores, so every job after the first one
died in load_checkpoint.
---
 src/cdtools/models/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 943f5ed..48de0ad 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -372,7 +372,9 @@ class CDIModel(t.nn.Module):
                 + '_' + str(self.current_checkpoint_id) + '.pt'
             )
 
-        checkpoint = t.load(checkpoint_file)
+        # The checkpoint holds numpy arrays as well as tensors, which torch
+        # refuses to unpickle when weights_only is True (now the default)
+        checkpoint = t.load(checkpoint_file, weights_only=False)
         
         state_dict = nested_dict_to_torch(checkpoint['state_dict'])
         self.load_state_dict(state_dict)
-- 
2.43.0


From d803ca164da7258a95882df9b26c87bd737ac58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 02/46] fix: store the current optimizer on the model, where
 checkpoints look for it

save_checkpoint and load_checkpoint use model.current_optimizer, but it was
set on the reconstructor, so the optimizer state was never checkpointed.
---
 src/cdtools/reconstructors/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index ed8afc1..63d9b66 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -317,7 +317,7 @@ class Reconstructor:
 
         # We store the current optimizer as a model parameter so that
         # it can be saved and loaded for checkpointing
-        self.current_optimizer = self.optimizer
+        self.model.current_optimizer = self.optimizer
 
         # If we don't want to run in a different thread, this is easy
         if not thread:
@@ -394,4 +394,4 @@ class Reconstructor:
                 yield res
 
         # And finally, we unset the current optimizer:
-        self.current_optimizer = None
+        self.model.current_optimizer = None
-- 
2.43.0


From fc0499b7eaf636e1f8154267db6b34285c7c786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:12 +0000
Subject: [PATCH 03/46] fix: let optimize(thread=False) skip epochs when using
 checkpoints

The epoch counter lives on the model, the reconstructor has none.
---
 src/cdtools/reconstructors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 63d9b66..de67044 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -323,7 +323,7 @@ class Reconstructor:
         if not thread:
             for it in range(iterations):
                 if self.model.skip_computation():
-                    self.epoch = self.epoch + 1
+                    self.model.epoch = self.model.epoch + 1
                     if len(self.model.loss_history) >= 1:
                         yield self.model.loss_history[-1]
                     else:
-- 
2.43.0


From 647437e9301155d8d8abed14b0b9eb397f4a5525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 04/46] fix: do not let an interrupted first epoch corrupt the
 loss normalization

The patterns seen before the interruption were counted a second time by the
next run, so every loss reported afterwards was scaled wrongly.
---
 src/cdtools/reconstructors/base.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index de67044..49908e1 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -16,6 +16,7 @@ from torch.utils import data as td
 import threading
 import queue
 import time
+from copy import deepcopy
 from matplotlib import pyplot as plt
 from typing import List, Union
 
@@ -159,17 +160,23 @@ class Reconstructor:
         N = 0
         t0 = time.time()
 
+        # During the first epoch, the normalizer accumulates information
+        # about the patterns. We accumulate into a copy, and only store it
+        # once the epoch is finished, so that an epoch which gets interrupted
+        # doesn't leave a partial accumulation behind.
+        loss_normalizer = deepcopy(getattr(self.model,
+                                           'loss_normalizer', None))
+
         # The data loader is responsible for setting the minibatch
         # size, so each set is a minibatch
         for inputs, patterns in self.data_loader:
-            if hasattr(self.model, 'loss_normalizer') and \
-                    self.model.loss_normalizer is not None:
+            if loss_normalizer is not None:
                 if hasattr(self.model, 'mask'):
                     mask = self.model.mask
                 else:
                     mask = None
                     
-                self.model.loss_normalizer.accumulate(patterns, mask=mask)
+                loss_normalizer.accumulate(patterns, mask=mask)
                 
             N += 1
 
@@ -226,9 +233,9 @@ class Reconstructor:
             # This takes the step for this minibatch
             loss += self.optimizer.step(closure).detach()
 
-        if hasattr(self.model, 'loss_normalizer') and \
-                self.model.loss_normalizer is not None:
-            loss = self.model.loss_normalizer.normalize_loss(loss)
+        if loss_normalizer is not None:
+            loss = loss_normalizer.normalize_loss(loss)
+            self.model.loss_normalizer = loss_normalizer
 
         # Make sure to return a scalar value which is fully numpy
         loss = loss.cpu().numpy()[()]
-- 
2.43.0


From e370e23fd2c3cb24d9a0e55c10741f621fd8c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 05/46] fix: pass every exception from the calculation thread
 on to the caller

Anything which is not an Exception (e.g. SystemExit) killed the calculation
thread without a result, and optimize() then waited for one forever.
---
 src/cdtools/reconstructors/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 49908e1..8878c65 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -357,9 +357,10 @@ class Reconstructor:
                             calculation_width=calculation_width,
                         )
                     )
-                except Exception as e:
+                except BaseException as e:
                     # If something bad happens, put the exception into the
-                    # result queue
+                    # result queue. Even things like SystemExit need to go
+                    # in, or the main thread would wait for a result forever.
                     result_queue.put(e)
 
             # And this actually starts and monitors the thread
@@ -395,7 +396,7 @@ class Reconstructor:
                 res = result_queue.get()
 
                 # If something went wrong in the thead, we'll get an exception
-                if isinstance(res, Exception):
+                if isinstance(res, BaseException):
                     raise res
 
                 yield res
-- 
2.43.0


From eabdf3bd8a556652742cfbef76d35ee6519219dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 06/46] fix: stop the calculation thread when anything goes
 wrong in the main thread

Only KeyboardInterrupt was handled. Any other exception, e.g. one raised by
the plotting backend in flush_events, left the thread running in the
background and updating the model.
---
 src/cdtools/reconstructors/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 8878c65..3619df5 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -386,11 +386,14 @@ class Reconstructor:
 
                         time.sleep(0.01)
 
-                except KeyboardInterrupt as e:
+                except BaseException as e:
                     stop_event.set()
-                    print('\nAsking execution thread to stop cleanly - ' +
-                          'please be patient.')
-                    calc.join()
+                    if isinstance(e, KeyboardInterrupt):
+                        print('\nAsking execution thread to stop cleanly - ' +
+                              'please be patient.')
+                    # The thread may not have been started yet
+                    if calc.is_alive():
+                        calc.join()
                     raise e
 
                 res = result_queue.get()
-- 
2.43.0


From 7877c8bea8e4f497e6f3aeb6c9143e09a8e39ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 07/46] fix: do not reopen figures which are closed during a
 reconstruction

---
 src/cdtools/reconstructors/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 3619df5..413bff9 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -382,7 +382,10 @@ class Reconstructor:
                         open_figs = plt.get_fignums()
                         with plt.rc_context({'figure.raise_window': False}):
                             for fignum in open_figs:
-                                plt.figure(fignum).canvas.flush_events()
+                                # The user may have closed this one while the
+                                # events of another one were processed
+                                if plt.fignum_exists(fignum):
+                                    plt.figure(fignum).canvas.flush_events()
 
                         time.sleep(0.01)
 
-- 
2.43.0


From f63c47076fff2980c4877871311b06326279e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 08/46] fix: import warnings in the SGD reconstructor

A typo in lr_factors raised a NameError rather than a warning.
---
 src/cdtools/reconstructors/sgd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/reconstructors/sgd.py b/src/cdtools/reconstructors/sgd.py
index c5c495a..4f999b4 100644
--- a/src/cdtools/reconstructors/sgd.py
+++ b/src/cdtools/reconstructors/sgd.py
@@ -9,6 +9,7 @@ the 'training' of a model given some dataset and optimizer.
 from __future__ import annotations
 from typing import TYPE_CHECKING
 
+import warnings
 import torch as t
 from typing import List, Union
 from cdtools.reconstructors import Reconstructor
-- 
2.43.0


From 7f4814a9cd38183171a47a31e49bc18f8f281ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 09/46] fix: respect the shuffle argument of
 SGDReconstructor.optimize

---
 src/cdtools/reconstructors/sgd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cdtools/reconstructors/sgd.py b/src/cdtools/reconstructors/sgd.py
index 4f999b4..79f62fb 100644
--- a/src/cdtools/reconstructors/sgd.py
+++ b/src/cdtools/reconstructors/sgd.py
@@ -253,4 +253,5 @@ class SGDReconstructor(Reconstructor):
             regularization_factor=regularization_factor,
             thread=thread,
             calculation_width=calculation_width,
+            shuffle=shuffle,
         )
-- 
2.43.0


From 73add598ac655f3bd7e328cd7bde632efb8951ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 10/46] fix: fix the data loader set up when no batch size is
 given

SGD_optimize() with its default batch_size died with an AttributeError.
---
 src/cdtools/reconstructors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 413bff9..03a2ca4 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -101,7 +101,7 @@ class Reconstructor:
                                              batch_size=batch_size,
                                              shuffle=shuffle)
         else:
-            self.data_loader = td.Dataloader(self.dataset)
+            self.data_loader = td.DataLoader(self.dataset, shuffle=shuffle)
 
             
     def adjust_optimizer(self, **kwargs):
-- 
2.43.0


From 95fab1f4b9ce1b8d9bcea993ca248b961bea6c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 11/46] fix: allow saving conjugated tensors, such as
 near-field propagators

save_results() failed on every near-field FancyPtycho model, because torch
does not convert lazily conjugated tensors to numpy.
---
 src/cdtools/tools/data/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 89879dd..e5aae10 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -894,7 +894,8 @@ def nested_dict_to_h5(h5_file, d):
         elif isinstance(value, np.ndarray):
             h5_file.create_dataset(key, data=value)
         elif t.is_tensor(value):
-            h5_file.create_dataset(key, data=value.detach().cpu().numpy())
+            h5_file.create_dataset(
+                key, data=value.detach().cpu().resolve_conj().numpy())
         elif isinstance(value, str):
             h5_file.create_dataset(key, data=value, dtype=h5py.string_dtype())
         elif isinstance(value, Mapping):
@@ -970,7 +971,7 @@ def nested_dict_to_numpy(d):
         if isinstance(value, (numbers.Number, np.bool_, np.ndarray)):
             new_dict[key] = value
         elif t.is_tensor(value):
-            new_dict[key] = value.cpu().numpy()
+            new_dict[key] = value.detach().cpu().resolve_conj().numpy()
         elif isinstance(value, str):
             new_dict[key] = value
         elif isinstance(value, Mapping):
-- 
2.43.0


From 6c066af80f875838016107d8540705042b1c7789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 12/46] fix: initialize probe_fourier_shifts from
 probe_fourier_shifts

They were set to the translation offsets. In from_results_dict, the two then
shared memory with each other and with the model which was saved.
---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 505a22d..fe6e11c 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -185,7 +185,7 @@ class FancyPtycho(CDIModel):
             self.probe_fourier_shifts = None
         else:
             self.probe_fourier_shifts = t.nn.Parameter(
-                t.as_tensor(translation_offsets, dtype=t.float32)
+                t.as_tensor(probe_fourier_shifts, dtype=t.float32)
             )
 
         self.register_buffer('translation_scale',
-- 
2.43.0


From 90eafe9ed234d7e3f25eb3bc911d939c86054f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 13/46] fix: fix the near-field backward propagator of
 FancyPtycho

The buffer is called inv_angular_spectrum_propagator.
---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index fe6e11c..9121b04 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -654,7 +654,7 @@ class FancyPtycho(CDIModel):
     def backward_propagator(self, wavefields):
         if self.near_field:
             return tools.propagators.near_field(
-                wavefields, self.inverse_angular_spectrum_propagator
+                wavefields, self.inv_angular_spectrum_propagator
             )
         else:
             return tools.propagators.inverse_far_field(wavefields)
-- 
2.43.0


From 82c8f489e81135f433f9dcb20292334895c215fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 14/46] fix: make save_results return a snapshot

The arrays in the results shared memory with the model, so continuing a
reconstruction silently changed results which were saved earlier.
---
 src/cdtools/models/base.py              | 5 ++++-
 src/cdtools/models/bragg_2d_ptycho.py   | 3 ++-
 src/cdtools/models/fancy_ptycho.py      | 3 ++-
 src/cdtools/models/multislice_ptycho.py | 3 ++-
 src/cdtools/models/rpi.py               | 3 ++-
 src/cdtools/models/simple_ptycho.py     | 3 ++-
 6 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 48de0ad..0ee4ecf 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -35,6 +35,7 @@ from matplotlib.widgets import Slider
 from matplotlib import ticker
 import numpy as np
 import time
+from copy import deepcopy
 from contextlib import contextmanager
 import cdtools
 from cdtools.tools.data import nested_dict_to_h5, nested_dict_to_numpy, nested_dict_to_torch, h5_to_nested_dict
@@ -186,7 +187,9 @@ class CDIModel(t.nn.Module):
         results : dict
             A dictionary containing all the parameters and buffers of the model, i.e. the result of self.state_dict(), converted to numpy.
         """
-        state_dict = nested_dict_to_numpy(self.state_dict())
+        # Without the copy, the results would share memory with the model, and
+        # therefore keep changing if the reconstruction is continued
+        state_dict = deepcopy(nested_dict_to_numpy(self.state_dict()))
 
         return {
             'state_dict': state_dict,
diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 04f4369..47a8744 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from functools import partial
 import torch as t
 from cdtools.models import CDIModel
@@ -775,4 +776,4 @@ class Bragg2DPtycho(CDIModel):
             'wavelength': wavelength,
         }
 
-        return {**base_results, **results}
+        return {**base_results, **deepcopy(results)}
diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 9121b04..e297c82 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from functools import partial
 import torch as t
 from cdtools.models import CDIModel
@@ -1231,7 +1232,7 @@ class FancyPtycho(CDIModel):
             'wavelength': wavelength,
         }
 
-        return {**base_results, **results}
+        return {**base_results, **deepcopy(results)}
 
 
     @classmethod
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 3547351..78aed51 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from functools import partial
 import torch as t
 from cdtools.models import CDIModel
@@ -975,4 +976,4 @@ class MultislicePtycho(CDIModel):
             'wavelength': wavelength,
         }
 
-        return {**base_results, **results}
+        return {**base_results, **deepcopy(results)}
diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index 6e94103..d61e48e 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from functools import partial
 import torch as t
 from cdtools.models import CDIModel
@@ -687,5 +688,5 @@ class RPI(CDIModel):
             'background': background
         }
 
-        return {**base_results, **results}
+        return {**base_results, **deepcopy(results)}
 
diff --git a/src/cdtools/models/simple_ptycho.py b/src/cdtools/models/simple_ptycho.py
index 596f70b..1ae7350 100644
--- a/src/cdtools/models/simple_ptycho.py
+++ b/src/cdtools/models/simple_ptycho.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from functools import partial
 import torch as t
 from cdtools.models import CDIModel
@@ -152,7 +153,7 @@ class SimplePtycho(CDIModel):
             'wavelength': wavelength,
         }
 
-        return {**base_results, **results}
+        return {**base_results, **deepcopy(results)}
 
 
     @classmethod
-- 
2.43.0


From 36a1e51eefe4c4a56cc05aa917d813fbc9562873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 15/46] fix: do not share memory between a loaded model and its
 results dictionary

Optimizing a model made with from_results_dict changed the dictionary, and any
other model which was made from it.
---
 src/cdtools/models/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 0ee4ecf..4210622 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -233,6 +233,10 @@ class CDIModel(t.nn.Module):
         """
         state_dict = nested_dict_to_torch(results_dict['state_dict'])
         self.load_state_dict(state_dict, strict=False)
+        # Subclasses construct the model from the arrays in the results_dict.
+        # We make sure that it doesn't keep sharing memory with them.
+        for tensor in [*self.parameters(), *self.buffers()]:
+            tensor.data = tensor.data.clone()
         self.loss_history = list(results_dict.get('loss_history', []))
         self.epoch = int(results_dict.get('epoch', 0))
         self.training_history = str(results_dict.get('training_history', ''))
-- 
2.43.0


From 310f1f009f618738a4245e4e1392138bb48f85f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 16/46] fix: always set the units of a Bragg2DPtycho model

---
 src/cdtools/models/bragg_2d_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 47a8744..1bb7158 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -117,7 +117,7 @@ class Bragg2DPtycho(CDIModel):
             self.register_buffer('probe_basis',
                                  t.as_tensor(probe_basis, dtype=dtype))        
 
-            self.units = units
+        self.units = units
 
         # calculate the surface normal from the object basis. Reminder
         # that for this model, the object basis should be defined in the
-- 
2.43.0


From 9b01403e34cc4cc31878a69c0c911a9517008062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 17/46] fix: keep the weight matrix of a reloaded RPI model
 optimizable

from_results_dict always froze it.
---
 src/cdtools/models/rpi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/models/rpi.py b/src/cdtools/models/rpi.py
index d61e48e..39048c9 100644
--- a/src/cdtools/models/rpi.py
+++ b/src/cdtools/models/rpi.py
@@ -651,6 +651,7 @@ class RPI(CDIModel):
             mask=sd.get('mask'),
             saturation=sd.get('saturation'),
             oversampling=int(sd.get('oversampling', 1)),
+            weight_matrix=bool(results_dict.get('weight_matrix', False)),
             exponentiate_obj=bool(sd.get('exponentiate_obj', False)),
             phase_only=bool(sd.get('phase_only', False)),
             loss=results_dict.get('loss_function', 'amplitude mse'),
@@ -685,7 +686,8 @@ class RPI(CDIModel):
             'obj_basis': obj_basis,
             'probe': probe,
             'obj': obj,
-            'background': background
+            'background': background,
+            'weight_matrix': self.weights.requires_grad,
         }
 
         return {**base_results, **deepcopy(results)}
-- 
2.43.0


From adcc50ff499579fc62f02776bc3abb74b00f011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 18/46] fix: pad the quantum efficiency mask along with the
 patterns

It was left at the old shape, so the dataset could not be used afterwards.
---
 src/cdtools/datasets/ptycho_2d_dataset.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index 5a84ca1..fcd2ad8 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -368,6 +368,8 @@ class Ptycho2DDataset(CDataset):
                 self.mask = t.nn.functional.pad(self.mask, to_pad, value=False)
             else:
                 self.mask = t.nn.functional.pad(self.mask, to_pad, value=True)
+        if self.qe_mask is not None:
+            self.qe_mask = t.nn.functional.pad(self.qe_mask, to_pad, value=1)
         if self.background is not None:
             self.background = t.nn.functional.pad(self.background, to_pad)
         
-- 
2.43.0


From 68f31122bb40d329b3c17c3347035e48621d81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 19/46] fix: mask off NaN pixels when loading a dataset from a
 .cxi file

This is what the constructor does. Without it, every loss is NaN.
---
 src/cdtools/datasets/ptycho_2d_dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cdtools/datasets/ptycho_2d_dataset.py b/src/cdtools/datasets/ptycho_2d_dataset.py
index fcd2ad8..aff706f 100644
--- a/src/cdtools/datasets/ptycho_2d_dataset.py
+++ b/src/cdtools/datasets/ptycho_2d_dataset.py
@@ -176,6 +176,9 @@ class Ptycho2DDataset(CDataset):
 
             if dataset.mask is None:
                 dataset.mask = t.ones(dataset.patterns.shape[-2:]).to(dtype=t.bool)
+            dataset.mask.masked_fill_(
+                t.isnan(t.sum(dataset.patterns, dim=(0,))), 0)
+            dataset.patterns.masked_fill_(t.isnan(dataset.patterns), 0)
 
         try:
             intensities = cdtdata.get_shot_to_shot_info(cxi_file, 'intensities')
-- 
2.43.0


From f5972dec23a9f59e33b6bb8c9a865cfbc6146536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:29 +0000
Subject: [PATCH 20/46] fix: let CDataset.to_cxi write to a path

The file was not set up with the groups which the data is added to.
---
 src/cdtools/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/datasets/base.py b/src/cdtools/datasets/base.py
index 3f8ec8c..f482287 100644
--- a/src/cdtools/datasets/base.py
+++ b/src/cdtools/datasets/base.py
@@ -235,7 +235,7 @@ class CDataset(torchdata.Dataset):
 
         # If a bare string is passed
         if isinstance(cxi_file, str) or isinstance(cxi_file, pathlib.Path):
-            with h5py.File(cxi_file,'w') as f:
+            with cdtdata.create_cxi(cxi_file) as f:
                 return self.to_cxi(f)
 
         if self.entry_info is not None:
-- 
2.43.0


From d177e0f6518b466c79ad94a2cad6acc302404878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 21/46] fix: only interpret the times in the entry metadata as
 times

Titles, descriptions, etc. which happened to look like a date came back
from a .cxi file as a datetime object, and long numbers raised an
OverflowError.
---
 src/cdtools/tools/data/data.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index e5aae10..25f480f 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -80,12 +80,14 @@ def get_entry_info(cxi_file):
                 if attr in e1}
     
 
-    for attr in metadata_attrs:
-        if attr in e1:
+    # Only these are times. Parsing the others would turn e.g. the title
+    # '2020' into a datetime
+    for attr in ['start_time', 'end_time']:
+        if attr in metadata:
             try:
-                metadata[attr] = dateutil.parser.parse(str(e1[attr][()].decode()))
-            except ValueError:
-                metadata[attr] = str(e1[attr][()].decode())
+                metadata[attr] = dateutil.parser.parse(metadata[attr])
+            except (ValueError, OverflowError):
+                pass # We leave it as a string
 
     array_attrs = ['polarization_states']
     for attr in array_attrs:
-- 
2.43.0


From 38d1921488e6fe88d8579d0f30361d2d251ae5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 22/46] fix: allow non-ASCII metadata in .cxi files

The metadata is decoded as UTF-8 when it is read, but it could only be
written if it was pure ASCII.
---
 src/cdtools/tools/data/data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 25f480f..7464aa8 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -524,7 +524,9 @@ def add_entry_info(cxi_file, metadata):
     # Just the string and datetime types should be relevant but all are
     # included in case the cxi spec becomes more permissive
     for key, value in metadata.items():
-        if isinstance(value,(str,bytes)):
+        if isinstance(value, str):
+            cxi_file['entry_1'][key] = np.bytes_(value.encode('utf-8'))
+        elif isinstance(value, bytes):
             cxi_file['entry_1'][key] = np.bytes_(value)
         elif isinstance(value, datetime.datetime):
             cxi_file['entry_1'][key] = np.bytes_(value.isoformat())
@@ -564,7 +566,9 @@ def add_sample_info(cxi_file, metadata):
     for key, value in metadata.items():
         if key == 'orientation':
             continue # this is a special case
-        if isinstance(value,(str,bytes)):
+        if isinstance(value, str):
+            s1[key] = np.bytes_(value.encode('utf-8'))
+        elif isinstance(value, bytes):
             s1[key] = np.bytes_(value)
         elif isinstance(value, datetime.datetime):
             s1[key] = np.bytes_(value.isoformat())
-- 
2.43.0


From 4f412f49e961799d04ddcfad34f1881dc9237b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 23/46] fix: do not hide read errors when loading the detector
 geometry

When e.g. the distance was defined but could not be read, a different
definition of the geometry was silently used instead.
---
 src/cdtools/tools/data/data.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 7464aa8..3d4310e 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -231,11 +231,11 @@ def get_detector_geometry(cxi_file):
         # seen too many of these in the wild, unfortunately...
         try:
             x_pixel_size = np.float32(d1['x_pixel_size'])
-        except:
+        except (KeyError, TypeError, ValueError):
             x_pixel_size = None
         try:
             y_pixel_size = np.float32(d1['y_pixel_size'])
-        except:
+        except (KeyError, TypeError, ValueError):
             y_pixel_size = None
 
         if x_pixel_size is None and y_pixel_size is not None:
@@ -249,11 +249,11 @@ def get_detector_geometry(cxi_file):
 
     try:
         distance = np.float32(d1['distance'][()])
-    except:
+    except (KeyError, TypeError, ValueError):
         distance = None
     try:
         corner_position = d1['corner_position'][()]
-    except:
+    except (KeyError, TypeError, ValueError):
         corner_position = None
 
     # Don't pretend to calculate corner position from distance if it's not
-- 
2.43.0


From b6f465618ae42ca93a689380678042bfebe0dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 24/46] fix: do not share the quantum efficiency mask between
 dataset and model

The mask is a model parameter, so optimizing it changed the dataset.
---
 src/cdtools/models/fancy_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index e297c82..47b064f 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -487,7 +487,7 @@ class FancyPtycho(CDIModel):
 
         if use_qe_mask:
             if hasattr(dataset, 'qe_mask') and dataset.qe_mask is not None:
-                qe_mask = t.as_tensor(dataset.qe_mask, dtype=t.float32)
+                qe_mask = t.as_tensor(dataset.qe_mask, dtype=t.float32).clone()
             else:
                 qe_mask = t.ones(dataset.patterns.shape[-2:], dtype=t.float32)
         else:
-- 
2.43.0


From e29eda1e49f5ca855d069ae3b62659f43a8368d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 25/46] fix: do not close sys.stdin when a reconstruction is
 interrupted

---
 src/cdtools/reconstructors/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index 03a2ca4..c4aa18a 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -13,6 +13,7 @@ from typing import TYPE_CHECKING
 
 import torch as t
 from torch.utils import data as td
+import sys
 import threading
 import queue
 import time
@@ -199,8 +200,10 @@ class Reconstructor:
 
                 for inp, pats in zip(input_chunks, pattern_chunks):
                     # This check allows for graceful exit when threading
+                    # Note that exit() would also close sys.stdin, which ends
+                    # an interactive session
                     if stop_event is not None and stop_event.is_set():
-                        exit()
+                        sys.exit()
 
                     # Run the simulation
                     sim_patterns = self.model.forward(*inp)
-- 
2.43.0


From c3b5833b5e1ab5f3de6815d8d15e7035ec4b20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 26/46] fix: do not mistake read errors in .cxi files for
 missing fields

---
 src/cdtools/tools/data/data.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index 3d4310e..c22b876 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -230,12 +230,14 @@ def get_detector_geometry(cxi_file):
         # implicitly define the x or y pixel size for a detector. I've
         # seen too many of these in the wild, unfortunately...
         try:
-            x_pixel_size = np.float32(d1['x_pixel_size'])
-        except (KeyError, TypeError, ValueError):
+            x_pixel_size = (np.float32(d1['x_pixel_size'])
+                            if 'x_pixel_size' in d1 else None)
+        except (TypeError, ValueError):
             x_pixel_size = None
         try:
-            y_pixel_size = np.float32(d1['y_pixel_size'])
-        except (KeyError, TypeError, ValueError):
+            y_pixel_size = (np.float32(d1['y_pixel_size'])
+                            if 'y_pixel_size' in d1 else None)
+        except (TypeError, ValueError):
             y_pixel_size = None
 
         if x_pixel_size is None and y_pixel_size is not None:
@@ -247,13 +249,17 @@ def get_detector_geometry(cxi_file):
         basis_vectors = np.array([[0,-y_pixel_size,0],
                                   [-x_pixel_size,0,0]]).transpose()
 
+    # We check that the fields exist, because h5py also raises a KeyError if
+    # it fails to read a field
     try:
-        distance = np.float32(d1['distance'][()])
-    except (KeyError, TypeError, ValueError):
+        distance = (np.float32(d1['distance'][()])
+                    if 'distance' in d1 else None)
+    except (TypeError, ValueError):
         distance = None
     try:
-        corner_position = d1['corner_position'][()]
-    except (KeyError, TypeError, ValueError):
+        corner_position = (d1['corner_position'][()]
+                           if 'corner_position' in d1 else None)
+    except (TypeError, ValueError):
         corner_position = None
 
     # Don't pretend to calculate corner position from distance if it's not
@@ -461,12 +467,19 @@ def get_shot_to_shot_info(cxi_file, field_name):
         pull_from = 'entry_1/data_1/' + field_name
     elif 'entry_1/sample_1/geometry_1/' + field_name in cxi_file:
         pull_from = 'entry_1/sample_1/geometry_1/' + field_name
-    elif 'entry_1/instrument_1/detector_1/' in cxi_file:
+    elif 'entry_1/instrument_1/detector_1/' + field_name in cxi_file:
         pull_from = 'entry_1/instrument_1/detector_1/' + field_name
     else:
         raise KeyError('Data is not defined within cxi file')
 
-    return cxi_file[pull_from][()].astype(np.float32)
+    # h5py raises a KeyError if it fails to read a field, which must not be
+    # mistaken for the field not being defined
+    try:
+        dataset = cxi_file[pull_from]
+    except KeyError as e:
+        raise OSError(f'Failed to read {pull_from}') from e
+
+    return dataset[()].astype(np.float32)
 
 
 def get_ptycho_translations(cxi_file):
-- 
2.43.0


From 6631575bbd77b33081c9661f95a5446a4b55ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 27/46] fix: keep the mask boolean when a dataset is sent to a
 dtype

---
 src/cdtools/datasets/base.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/cdtools/datasets/base.py b/src/cdtools/datasets/base.py
index f482287..1f854e6 100644
--- a/src/cdtools/datasets/base.py
+++ b/src/cdtools/datasets/base.py
@@ -101,15 +101,10 @@ class CDataset(torchdata.Dataset):
 
         Accepts the same parameters as torch.Tensor.to
         """
-        # The mask should always stay a uint8, but it should switch devices
-        mask_kwargs = copy(kwargs)
-        try:
-            mask_kwargs.pop('dtype')
-        except KeyError:
-            pass
-
+        # The mask should always stay boolean, but it should switch devices
+        # Note that the dtype can also be given as a positional argument
         if self.mask is not None:
-            self.mask = self.mask.to(*args,**mask_kwargs)
+            self.mask = self.mask.to(*args,**kwargs).to(dtype=t.bool)
         if self.qe_mask is not None:
             self.qe_mask = self.qe_mask.to(*args,**kwargs)
         if self.background is not None:
-- 
2.43.0


From 30967f182d1396f593b0aa5079abe9ef360efd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 28/46] fix: do not ignore write errors when saving diffraction
 patterns

---
 src/cdtools/tools/data/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/data/data.py b/src/cdtools/tools/data/data.py
index c22b876..57629b9 100644
--- a/src/cdtools/tools/data/data.py
+++ b/src/cdtools/tools/data/data.py
@@ -786,8 +786,11 @@ def add_data(cxi_file, data, axes=None, compression='gzip',
     if isinstance(data, t.Tensor):
         data = data.detach().cpu().numpy()
 
-    det1.create_dataset('data', data=data, compression=compression,
-                        chunks=chunks)
+    dataset = det1.create_dataset('data', data=data, compression=compression,
+                                  chunks=chunks)
+    # Chunks may only be written once the dataset gets closed, and h5py ignores
+    # any errors (such as a full disk) which happen then
+    dataset.flush()
     data1['data'] = h5py.SoftLink('/entry_1/instrument_1/detector_1/data')
 
     if axes is not None:
-- 
2.43.0


From 338654ad172376bde99abeefd6c7ee15e08ea51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 29/46] fix: do not crop the mode axis when plotting multiple
 object modes

---
 src/cdtools/models/fancy_ptycho.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 47b064f..978d078 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -147,7 +147,8 @@ class FancyPtycho(CDIModel):
         # asks for a big padding which goes outside of the actual object array.
         # Just show the full array.
         if obj_view_crop > 0:
-            self.obj_view_slice = np.s_[obj_view_crop:-obj_view_crop,
+            self.obj_view_slice = np.s_[...,
+                                        obj_view_crop:-obj_view_crop,
                                         obj_view_crop:-obj_view_crop]
         else:
             self.obj_view_slice = np.s_[:,:]
-- 
2.43.0


From 15f218ec84f1267e0faf385b21ed0b843a4e46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 30/46] fix: plot the object of a multislice model with no crop

---
 src/cdtools/models/multislice_ptycho.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 78aed51..38670a7 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -106,8 +106,12 @@ class MultislicePtycho(CDIModel):
         self.obj = t.nn.Parameter(obj_guess)
 
 
-        self.obj_view_slice = np.s_[obj_view_crop:-obj_view_crop,
-                                    obj_view_crop:-obj_view_crop]
+        # With no crop, 0:-0 would select nothing
+        if obj_view_crop > 0:
+            self.obj_view_slice = np.s_[obj_view_crop:-obj_view_crop,
+                                        obj_view_crop:-obj_view_crop]
+        else:
+            self.obj_view_slice = np.s_[:,:]
         
         # TODO: perhaps not working anymore for fourier cropped probes
         if background is None:
-- 
2.43.0


From 3f67f1766647591f777540dc6e22319d12c858f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 31/46] fix: detach the patterns simulated by Bragg2DPtycho

---
 src/cdtools/models/bragg_2d_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 1bb7158..7f5f73f 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -586,7 +586,7 @@ class Bragg2DPtycho(CDIModel):
         indices, translations = args_list
         
         # Then we simulate the results
-        data = self.forward(indices, translations)
+        data = self.forward(indices, translations).detach()
 
         # And finally, we make the dataset
         return Ptycho2DDataset(translations, data,
-- 
2.43.0


From ffbf6bacda346a2574dfe59f9fa09b91d2a3629a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 32/46] fix: keep tidy_probes finite when some probe modes
 contain no intensity

---
 src/cdtools/models/fancy_ptycho.py      | 8 ++++++--
 src/cdtools/models/multislice_ptycho.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 978d078..6b85485 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -869,8 +869,12 @@ class FancyPtycho(CDIModel):
         U, S, Vh = t.linalg.svd(self.weights.data * probe_sqrt_intensities,
                                 full_matrices=False)
 
-        # We discard the U matrix and re-multiply S & Vh
-        self.weights.data = S[:,:,None] * (Vh / probe_sqrt_intensities)
+        # We discard the U matrix and re-multiply S & Vh. The weights of any
+        # modes which contain no intensity are arbitrary, so we keep them
+        self.weights.data = t.where(
+            probe_sqrt_intensities > 0,
+            S[:,:,None] * (Vh / probe_sqrt_intensities),
+            self.weights.data)
 
 
     def get_probe_intensities(self):
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index 38670a7..a7b1cf9 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -727,8 +727,12 @@ class MultislicePtycho(CDIModel):
         U, S, Vh = t.linalg.svd(self.weights.data * probe_sqrt_intensities,
                                 full_matrices=False)
 
-        # We discard the U matrix and re-multiply S & Vh
-        self.weights.data = S[:,:,None] * (Vh / probe_sqrt_intensities)
+        # We discard the U matrix and re-multiply S & Vh. The weights of any
+        # modes which contain no intensity are arbitrary, so we keep them
+        self.weights.data = t.where(
+            probe_sqrt_intensities > 0,
+            S[:,:,None] * (Vh / probe_sqrt_intensities),
+            self.weights.data)
 
 
     def plot_wavefront_variation(self, dataset=None, fig=None, mode='amplitude', **kwargs):
-- 
2.43.0


From 32b24e16c605a2b1bdace9d9ddbcab9c23980ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 33/46] fix: clear the background plot of Bragg2DPtycho when it
 is updated

---
 src/cdtools/models/bragg_2d_ptycho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/models/bragg_2d_ptycho.py b/src/cdtools/models/bragg_2d_ptycho.py
index 7f5f73f..9250160 100644
--- a/src/cdtools/models/bragg_2d_ptycho.py
+++ b/src/cdtools/models/bragg_2d_ptycho.py
@@ -702,7 +702,7 @@ class Bragg2DPtycho(CDIModel):
         {'title': 'Corrected Translations',
          'plot_func': lambda self, fig: p.plot_translations(self.corrected_translations(), fig=fig, units=self.units)},
         {'title': 'Background',
-         'plot_func': lambda self, fig: plt.figure(fig.number) and plt.imshow(self.background.detach().cpu().numpy()**2)},
+         'plot_func': lambda self, fig: p.plot_amplitude(self.background**2, fig=fig, cmap='viridis', cmap_label='Intensity (detector units)')},
     ]
 
     
-- 
2.43.0


From 2c41bac9d063149b5dad5f7322431e05e4b1d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 34/46] fix: give the probe plots of MultislicePtycho figures
 of their own

---
 src/cdtools/models/multislice_ptycho.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index a7b1cf9..b5e639d 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -784,21 +784,21 @@ class MultislicePtycho(CDIModel):
 
         
     plot_list = [
-        {'title': '',
+        {'title': 'Per-Exposure Probe Intensity',
          'plot_func': lambda self, fig: self.plot_wavefront_variation(
              fig=fig,
              mode='root_sum_intensity',
              image_title='Root Summed Probe Intensities',
              image_colorbar_title='Square Root of Intensity'),
          'condition': lambda self: len(self.weights.shape) >= 2},
-        {'title': '',
+        {'title': 'Per-Exposure Probe Amplitudes',
          'plot_func': lambda self, fig: self.plot_wavefront_variation(
              fig=fig,
              mode='amplitude',
              image_title='Probe Amplitudes (scroll to view modes)',
              image_colorbar_title='Probe Amplitude'),
          'condition': lambda self: len(self.weights.shape) >= 2},
-        {'title': '',
+        {'title': 'Per-Exposure Probe Phases',
          'plot_func': lambda self, fig: self.plot_wavefront_variation(
              fig=fig,
              mode='phase',
-- 
2.43.0


From 7b5a486c40d6f258f2524819dd367953854d9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 35/46] fix: do not wait forever in inspect when there is
 nothing to plot

---
 src/cdtools/models/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 4210622..bca22a3 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -716,8 +716,9 @@ class CDIModel(t.nn.Module):
                 all_plots, dataset=dataset, replot_all=replot_all)
 
         if self.last_inspected_time is None or replot_all:
-            # Somehow, this is needed for new figures to appear
-            if self._is_backend_interactive():
+            # Somehow, this is needed for new figures to appear. If there are
+            # none, we can't do this, because plt.pause(0) waits forever
+            if self.figs and self._is_backend_interactive():
                 plt.pause(0.05 * len(self.figs))
                 for fig in self.figs:
                     fig.canvas.flush_events()
-- 
2.43.0


From 06fb8b228d3bdf6f0994beba45f425627bf39ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 36/46] fix: keep min_interval in inspect right when the clock
 is set

---
 src/cdtools/models/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index bca22a3..7435a92 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -684,7 +684,7 @@ class CDIModel(t.nn.Module):
         """
         if (min_interval is not None
                 and self.last_inspected_time is not None
-                and time.time() - self.last_inspected_time < min_interval):
+                and time.monotonic() - self.last_inspected_time < min_interval):
             return
 
         plot_panel_list = getattr(self, 'plot_panel_list', None) or []
@@ -723,7 +723,7 @@ class CDIModel(t.nn.Module):
                 for fig in self.figs:
                     fig.canvas.flush_events()
 
-        self.last_inspected_time = time.time()
+        self.last_inspected_time = time.monotonic()
 
             
     def _is_backend_interactive(
-- 
2.43.0


From 57a3cc81bf64e32ae481895b6e8307915bd7d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 37/46] fix: save every figure under its own title in
 save_figures

---
 src/cdtools/models/base.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 7435a92..341d3fe 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -1054,11 +1054,9 @@ class CDIModel(t.nn.Module):
             return  # No figures to save
 
         for fig in self.figs:
-            if hasattr(fig, '_panel_label') and fig._panel_label:
-                label = fig._panel_label
-            else:
-                label = fig.axes[0].get_title() if fig.axes else 'figure'
-            fig.savefig(prefix + label + extension, bbox_inches='tight')
+            # The label of the figure is the title from the plot_list
+            fig.savefig(prefix + fig.get_label() + extension,
+                        bbox_inches='tight')
 
 
     def compare(self, dataset, logarithmic=False):
-- 
2.43.0


From 61db2224cd9cb534d0c22be92a08d14aefdaef2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 38/46] fix: keep the color limits of compare and inspect in
 step with the images

---
 src/cdtools/models/base.py             | 2 ++
 src/cdtools/tools/plotting/plotting.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index 341d3fe..ca0d002 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -1088,6 +1088,8 @@ class CDIModel(t.nn.Module):
 
             im.norecurse=True
             im.set_clim(vmin=np.min(im.get_array()),vmax=np.max(im.get_array()))
+            # If the limits didn't change, nothing has reset this
+            im.norecurse=False
 
         def update(idx):
             idx = int(idx) % len(dataset)
diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index 2e57a96..3602c2f 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -1070,6 +1070,8 @@ def plot_nanomap_with_images(
         if np.min(im.get_array()) != np.max(im.get_array()):
             im.set_clim(vmin=np.min(im.get_array()),
                         vmax=np.max(im.get_array()))
+        # If the limits didn't change, nothing has reset this
+        im.norecurse=False
 
     #
     # The meatiest part of this program, here we just go through and
-- 
2.43.0


From c58c5d6a17328657ac1fbd3e8863b4d143c02844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 39/46] fix: let every compare window use its own slider

---
 src/cdtools/models/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index ca0d002..c96fd36 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -1150,8 +1150,9 @@ class CDIModel(t.nn.Module):
 
         # This is dumb but the slider doesn't work unless a reference to it is
         # kept somewhere...
-        self.slider = Slider(axslider, 'Pattern #', 0, len(dataset)-1, valstep=1, valfmt="%d")
-        self.slider.on_changed(update)
+        slider = Slider(axslider, 'Pattern #', 0, len(dataset)-1, valstep=1, valfmt="%d")
+        slider.on_changed(update)
+        self.slider = slider
 
         def on_action(event):
             if not hasattr(event, 'button'):
@@ -1163,7 +1164,7 @@ class CDIModel(t.nn.Module):
                 update(fig.pattern_idx - 1)
             elif event.key == 'down' or event.button == 'down':
                 update(fig.pattern_idx + 1)
-            self.slider.set_val(fig.pattern_idx)
+            slider.set_val(fig.pattern_idx)
             plt.draw()
 
         fig.canvas.mpl_connect('key_press_event',on_action)
-- 
2.43.0


From fa0bfb14ac13b6f15b2d4cd61c06a277de8949f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 40/46] fix: start over in plot_image when the figure cannot be
 updated

---
 src/cdtools/tools/plotting/plotting.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index 3602c2f..d159ca9 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -226,6 +226,13 @@ def plot_image(
     ]
     n_sliders = len(slider_axis_map)
 
+    def can_update():
+        # The image can only be updated if it is still part of the figure,
+        # and if the new one has the same shape
+        return (hasattr(fig, '_current_im')
+                and fig._current_im.axes in fig.axes
+                and fig._im_shape == im.shape)
+
     def make_plot(idx_list):
         # Always update fig._make_plot so slider callbacks get the latest closure
         fig._make_plot = make_plot
@@ -236,7 +243,7 @@ def plot_image(
 
         # By only updating the data, and not redrawing the fig, we
         # don't "reset" the home positions of the toolbar
-        if hasattr(fig, '_current_im'):
+        if can_update():
             fig._current_im.set_data(to_plot)
             if updateable_colorbar:
                 fig._current_im.autoscale()
@@ -269,6 +276,9 @@ def plot_image(
             except IndexError:
                 ax_title = ''
 
+        fig.clear()
+        fig._im_shape = im.shape
+
         try:
             total_width, total_height = fig.get_size_inches()
         except AttributeError:
@@ -431,7 +441,7 @@ def plot_image(
         
         return fig
 
-    if hasattr(fig, 'plot_idx') and len(fig.plot_idx) == n_extra:
+    if can_update() and hasattr(fig, 'plot_idx'):
         result_fig = make_plot(fig.plot_idx)
     else:
         result_fig = make_plot([0] * n_extra)
@@ -440,6 +450,9 @@ def plot_image(
         # Protection for multi-subfigure situation
         if event.inaxes not in fig.axes:
             return
+        # The figure may be used for something else by now
+        if not can_update():
+            return
         if not hasattr(event, 'key'):
             event.key = None
         if not getattr(fig, '_sliders', []):
-- 
2.43.0


From 09909f957ac8d3ddd7dd0bfc284fa81309c007b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 41/46] fix: apply the color limits of plot_image to every
 slice

---
 src/cdtools/tools/plotting/plotting.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index d159ca9..e4fc35a 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -244,15 +244,19 @@ def plot_image(
         # By only updating the data, and not redrawing the fig, we
         # don't "reset" the home positions of the toolbar
         if can_update():
-            fig._current_im.set_data(to_plot)
-            if updateable_colorbar:
-                fig._current_im.autoscale()
             # We need to go to the "home" position before updating it
             # to include the new data, because otherwise it will store
             # other axes (potentially zoomed in) positions as "home",
-            # which is super annoying, more so than the reset.
+            # which is super annoying, more so than the reset. This also
+            # restores old color limits, so it has to come first.
             if fig.canvas.toolbar is not None:
                 fig.canvas.toolbar.home()
+            fig._current_im.set_data(to_plot)
+            if updateable_colorbar:
+                fig._current_im.autoscale()
+                # Limits which were asked for are kept
+                fig._current_im.set_clim(vmin, vmax)
+            if fig.canvas.toolbar is not None:
                 fig.canvas.toolbar.update()
             
             # Sync sliders to the new index without triggering callbacks
-- 
2.43.0


From 0edc1033d5f4cb8840bf612d601c4b3db3aee27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:38 +0000
Subject: [PATCH 42/46] fix: return the figure from plot_colorized

---
 src/cdtools/tools/plotting/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/tools/plotting/plotting.py b/src/cdtools/tools/plotting/plotting.py
index e4fc35a..481e1c1 100644
--- a/src/cdtools/tools/plotting/plotting.py
+++ b/src/cdtools/tools/plotting/plotting.py
@@ -786,6 +786,8 @@ def plot_colorized(
     cbar_ax.imshow(cbar_im, origin='lower', aspect='auto',
                extent=[xg[0], xg[-1], -np.pi, np.pi])
 
+    return plot_fig
+
 
 def plot_translations(
         translations,
-- 
2.43.0


From a41926456671ec4155784df866a6e97f9485cbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 43/46] fix: standardize_reconstruction_pair shifted the probes
 of the results it was given

---
 src/cdtools/tools/analysis/analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cdtools/tools/analysis/analysis.py b/src/cdtools/tools/analysis/analysis.py
index 9844edb..a251bcf 100644
--- a/src/cdtools/tools/analysis/analysis.py
+++ b/src/cdtools/tools/analysis/analysis.py
@@ -1369,6 +1369,8 @@ def standardize_reconstruction_pair(
         t.as_tensor(probe_2[0]),
     )
     
+    # If no other correction was made, this still is the array from half_2
+    probe_2 = probe_2.copy()
     for idx in range(probe_2.shape[0]):
         probe_2[idx] = ip.sinc_subpixel_shift(
             t.as_tensor(probe_2[idx]), probe_shift).numpy()
-- 
2.43.0


From 1f024c017ed756e55e273c9b4c718b63a8347a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 44/46] fix: L-BFGS failed after tidy_probes, which left
 parameters in another memory layout

---
 src/cdtools/models/fancy_ptycho.py      | 8 +++++---
 src/cdtools/models/multislice_ptycho.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cdtools/models/fancy_ptycho.py b/src/cdtools/models/fancy_ptycho.py
index 6b85485..b6d50c6 100644
--- a/src/cdtools/models/fancy_ptycho.py
+++ b/src/cdtools/models/fancy_ptycho.py
@@ -810,7 +810,9 @@ class FancyPtycho(CDIModel):
         # just one per-shot overall weight
         if self.weights.dim() == 1:
             ortho_probes = analysis.orthogonalize_probes(self.probe.detach())
-            self.probe.data = ortho_probes
+            # The results of decompositions are often stored column by column,
+            # but L-BFGS needs parameters with the standard memory layout
+            self.probe.data = ortho_probes.contiguous()
             return
 
         # What follows is for the unified OPRP and incoherent multi-mode model,
@@ -848,7 +850,7 @@ class FancyPtycho(CDIModel):
 
         # And we save it back to the model
         self.probe.data = ortho_probes.to(
-            device=self.probe.device, dtype=self.probe.dtype)        
+            device=self.probe.device, dtype=self.probe.dtype).contiguous()
         self.weights.data = new_weights.to(
             device=self.weights.device, dtype=self.weights.dtype)
 
@@ -874,7 +876,7 @@ class FancyPtycho(CDIModel):
         self.weights.data = t.where(
             probe_sqrt_intensities > 0,
             S[:,:,None] * (Vh / probe_sqrt_intensities),
-            self.weights.data)
+            self.weights.data).contiguous()
 
 
     def get_probe_intensities(self):
diff --git a/src/cdtools/models/multislice_ptycho.py b/src/cdtools/models/multislice_ptycho.py
index b5e639d..8f62ed3 100644
--- a/src/cdtools/models/multislice_ptycho.py
+++ b/src/cdtools/models/multislice_ptycho.py
@@ -668,7 +668,9 @@ class MultislicePtycho(CDIModel):
         # just one per-shot overall weight
         if self.weights.dim() == 1:
             ortho_probes = analysis.orthogonalize_probes(self.probe.detach())
-            self.probe.data = ortho_probes
+            # The results of decompositions are often stored column by column,
+            # but L-BFGS needs parameters with the standard memory layout
+            self.probe.data = ortho_probes.contiguous()
             return
 
         # What follows is for the unified OPRP and incoherent multi-mode model,
@@ -706,7 +708,7 @@ class MultislicePtycho(CDIModel):
 
         # And we save it back to the model
         self.probe.data = ortho_probes.to(
-            device=self.probe.device, dtype=self.probe.dtype)        
+            device=self.probe.device, dtype=self.probe.dtype).contiguous()
         self.weights.data = new_weights.to(
             device=self.weights.device, dtype=self.weights.dtype)
 
@@ -732,7 +734,7 @@ class MultislicePtycho(CDIModel):
         self.weights.data = t.where(
             probe_sqrt_intensities > 0,
             S[:,:,None] * (Vh / probe_sqrt_intensities),
-            self.weights.data)
+            self.weights.data).contiguous()
 
 
     def plot_wavefront_variation(self, dataset=None, fig=None, mode='amplitude', **kwargs):
-- 
2.43.0


From b09090dfa49384fd85cb755b7ad432390e631c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:27 +0000
Subject: [PATCH 45/46] fix: checkpoints lost the state of the learning rate
 schedule

---
 src/cdtools/models/base.py         | 8 ++++++++
 src/cdtools/reconstructors/base.py | 7 +++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cdtools/models/base.py b/src/cdtools/models/base.py
index c96fd36..d9764be 100644
--- a/src/cdtools/models/base.py
+++ b/src/cdtools/models/base.py
@@ -361,6 +361,10 @@ class CDIModel(t.nn.Module):
             and self.current_optimizer is not None):
             checkpoint['optimizer_state_dict'] = \
             self.current_optimizer.state_dict()
+        if (hasattr(self, 'current_scheduler')
+            and self.current_scheduler is not None):
+            checkpoint['scheduler_state_dict'] = \
+            self.current_scheduler.state_dict()
 
         if checkpoint_file is None:
             checkpoint_file = (
@@ -394,6 +398,10 @@ class CDIModel(t.nn.Module):
             and self.current_optimizer is not None):
             self.current_optimizer.load_state_dict(
                 checkpoint['optimizer_state_dict'])
+        if (hasattr(self, 'current_scheduler')
+            and self.current_scheduler is not None):
+            self.current_scheduler.load_state_dict(
+                checkpoint['scheduler_state_dict'])
 
     
     def checkpoint(self, *args):
diff --git a/src/cdtools/reconstructors/base.py b/src/cdtools/reconstructors/base.py
index c4aa18a..2c7d9f6 100644
--- a/src/cdtools/reconstructors/base.py
+++ b/src/cdtools/reconstructors/base.py
@@ -326,8 +326,10 @@ class Reconstructor:
             self.data_loader = custom_data_loader
 
         # We store the current optimizer as a model parameter so that
-        # it can be saved and loaded for checkpointing
+        # it can be saved and loaded for checkpointing. The same goes for the
+        # scheduler, which decides when the learning rate is lowered
         self.model.current_optimizer = self.optimizer
+        self.model.current_scheduler = self.scheduler
 
         # If we don't want to run in a different thread, this is easy
         if not thread:
@@ -410,5 +412,6 @@ class Reconstructor:
 
                 yield res
 
-        # And finally, we unset the current optimizer:
+        # And finally, we unset the current optimizer and scheduler:
         self.model.current_optimizer = None
+        self.model.current_scheduler = None
-- 
2.43.0


From c0e19ed6cd69a5509f53c897846b6664a4d65b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:22 +0000
Subject: [PATCH 46/46] fix: let Ctrl-C through while patterns are loaded

The bare except in CDataset.__getitem__, which is there for inputs which
are no tensors, also caught KeyboardInterrupt.
---
 src/cdtools/datasets/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdtools/datasets/base.py b/src/cdtools/datasets/base.py
index 1f854e6..000d86d 100644
--- a/src/cdtools/datasets/base.py
+++ b/src/cdtools/datasets/base.py
@@ -141,7 +141,7 @@ class CDataset(torchdata.Dataset):
             for inp in inputs:
                 try:
                     moved_inputs.append(inp.to(*self.get_as_args[0],**self.get_as_args[1]) )
-                except:
+                except Exception:
                     moved_inputs.append(inp)
         else:
             moved_inputs = inputs
-- 
2.43.0

