From ccbce287b185fc74a9c6c22bc6a9c5abe883dd0e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 01/89] fix: single-pass batch generation loses events or never
 ends

Workers that found the file list empty were counted as having processed a
file, so that data of files still being loaded were dropped. The batching
process and the generator blocked on queues that would never be filled
(missing, skipped or too few files, last batch), and the generator could end
before the last incomplete batch was put in the queue.
---
 egenerator/data/handler/base.py | 89 ++++++++++++++++++++++-----------
 1 file changed, 59 insertions(+), 30 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 8ce7e16..2b1d0a0 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -3,6 +3,7 @@ import time
 import multiprocessing
 import numpy as np
 import glob
+import queue
 import resource
 from copy import deepcopy
 import logging
@@ -700,6 +701,10 @@ class BaseDataHandler(BaseComponent):
                 number_of_files += 1
                 file_list_queue.put(file)
 
+            if number_of_files == 0:
+                # there is nothing to process
+                processed_all_files.value = True
+
         # create data_batch_queue
         data_batch_queue = multiprocessing.Manager().Queue(
                                                     maxsize=file_capacity)
@@ -741,7 +746,9 @@ class BaseDataHandler(BaseComponent):
                         if not file_list_queue.empty():
                             file = file_list_queue.get()
                         else:
-                            file = None
+                            # No files left to pick up: the remaining ones
+                            # are being processed by the other workers.
+                            break
 
                 if file and os.path.exists(file):
 
@@ -846,6 +853,28 @@ class BaseDataHandler(BaseComponent):
                     # must simply be concatenated along axis 0.
                     event_list[i].append(data_batch[i])
 
+        def get_next_file_data():
+            """Get the next element of the 'data_batch_queue'.
+
+            Waits until an element is available.
+
+            Returns
+            -------
+            tuple or None
+                The next element (num_events, data_batch) of the queue.
+                None, if all files have been processed and there is no data
+                left in the queue.
+            """
+            while True:
+                # Note: this must be checked before accessing the queue, since
+                # workers fill the queue before a file counts as processed
+                is_done = processed_all_files.value
+                try:
+                    return data_batch_queue.get(timeout=0.1)
+                except queue.Empty:
+                    if is_done:
+                        return None
+
         def data_queue_iterator(sample_randomly):
             """Helper Method to create batches.
 
@@ -860,41 +889,36 @@ class BaseDataHandler(BaseComponent):
                 If True, a random event order will be sampled.
                 If False, events will not be shuffled.
             """
-            if not pick_random_files_forever:
-                with file_counter_lock:
-                    if processed_all_files.value and data_batch_queue.empty():
-                        data_left_in_queue.value = False
-
             # reset event batch
             size = 0
             batch = [[] for v in self.tensors.names]
 
-            while data_left_in_queue.value:
+            while True:
                 # create lists and concatenate at end
                 # (faster than concatenating in each step)
                 exists = [True for v in self.tensors.names]
                 event_list = [[] for v in self.tensors.names]
 
                 # get a new set of events from queue and fill
-                num_events, data_batch = data_batch_queue.get()
+                file_data = get_next_file_data()
+                if file_data is None:
+                    break
+                num_events, data_batch = file_data
                 current_queue_size = num_events
                 fill_event_list(data_batch, event_list, exists, num_events)
 
                 n_files = 0
-                while ((n_files < num_add_files or current_queue_size <
-                        np.sqrt(max(0, num_repetitions - 1)) * batch_size) and
-                       data_left_in_queue.value):
-
-                    # avoid dead lock and delay for a bit
-                    time.sleep(0.1)
-
-                    if (data_batch_queue.qsize() > 1 or
-                            not data_batch_queue.empty()):
-                        num_events, data_batch = data_batch_queue.get()
-                        n_files += 1
-                        current_queue_size += num_events
-                        fill_event_list(data_batch, event_list, exists,
-                                        num_events)
+                while (n_files < num_add_files or current_queue_size <
+                        np.sqrt(max(0, num_repetitions - 1)) * batch_size):
+
+                    file_data = get_next_file_data()
+                    if file_data is None:
+                        break
+                    num_events, data_batch = file_data
+                    n_files += 1
+                    current_queue_size += num_events
+                    fill_event_list(data_batch, event_list, exists,
+                                    num_events)
 
                 # concatenate into one numpy array:
                 for i, tensor in enumerate(self.tensors.list):
@@ -970,12 +994,6 @@ class BaseDataHandler(BaseComponent):
                             size = 0
                             batch = [[] for v in self.tensors.names]
 
-                if not pick_random_files_forever:
-                    with file_counter_lock:
-                        if (processed_all_files.value and
-                                data_batch_queue.empty()):
-                            data_left_in_queue.value = False
-
             # collect leftovers and put them in an (incomplete) batch
             if size > 0:
                 # create numpy arrays from input tensors
@@ -990,6 +1008,9 @@ class BaseDataHandler(BaseComponent):
                         batch[i] = np.asarray(batch[i])
                 final_batch_queue.put(tuple(batch))
 
+            # all batches are in the queue
+            data_left_in_queue.value = False
+
         def batch_iterator():
             """Create batch generator
 
@@ -1000,8 +1021,16 @@ class BaseDataHandler(BaseComponent):
                 dom_responses: [batch_size, x_dim, y_dim, z_dim, num_bins]
                 cascade_parameters: [batch_size, num_cascade_parameters]
             """
-            while data_left_in_queue.value or not final_batch_queue.empty():
-                batch = final_batch_queue.get()
+            while True:
+                # Note: this must be checked before accessing the queue, since
+                # the last batch is put in the queue before the flag is set
+                data_left = data_left_in_queue.value
+                try:
+                    batch = final_batch_queue.get(timeout=0.1)
+                except queue.Empty:
+                    if not data_left:
+                        return
+                    continue
                 yield batch
 
         # create processes
-- 
2.43.0


From 68f12a47fa3eec4214e96f1300c02bb9c03d49aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 02/89] fix: the last incomplete batch did not have the
 tensors' data types

---
 egenerator/data/handler/base.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 2b1d0a0..9ecfb2d 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -998,14 +998,12 @@ class BaseDataHandler(BaseComponent):
             if size > 0:
                 # create numpy arrays from input tensors
                 for i, tensor in enumerate(self.tensors.list):
-                    if exists[i]:
-                        if tensor.vector_info is None:
-                            batch[i] = np.asarray(batch[i])
-
-                        else:
-                            batch[i] = np.concatenate(batch[i], axis=0)
+                    dtype = getattr(np, tensor.dtype)
+                    if exists[i] and tensor.vector_info is not None:
+                        batch[i] = np.concatenate(
+                            batch[i], axis=0).astype(dtype)
                     else:
-                        batch[i] = np.asarray(batch[i])
+                        batch[i] = np.asarray(batch[i], dtype=dtype)
                 final_batch_queue.put(tuple(batch))
 
             # all batches are in the queue
-- 
2.43.0


From 2f8888101c9584d925ded09322dc57e40f458084 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:41:39 +0000
Subject: [PATCH 03/89] fix: non-existing vector tensors broke the last
 incomplete batch

---
 egenerator/data/handler/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 9ecfb2d..720fb8b 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -894,15 +894,17 @@ class BaseDataHandler(BaseComponent):
             batch = [[] for v in self.tensors.names]
 
             while True:
+                # get a new set of events from queue
+                file_data = get_next_file_data()
+                if file_data is None:
+                    break
+
                 # create lists and concatenate at end
                 # (faster than concatenating in each step)
                 exists = [True for v in self.tensors.names]
                 event_list = [[] for v in self.tensors.names]
 
-                # get a new set of events from queue and fill
-                file_data = get_next_file_data()
-                if file_data is None:
-                    break
+                # fill lists
                 num_events, data_batch = file_data
                 current_queue_size = num_events
                 fill_event_list(data_batch, event_list, exists, num_events)
-- 
2.43.0


From 2f23e13304ef3af34c745dba93d8d98091ae2bba Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:08:03 +0000
Subject: [PATCH 04/89] fix: an interrupted save destroyed the records and the
 configuration on disk

---
 egenerator/manager/component.py |  4 ++--
 egenerator/misc.py              | 30 ++++++++++++++++++++++++++++++
 egenerator/model/base.py        |  7 ++++---
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 367b8c8..e5d18fe 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -840,11 +840,11 @@ class BaseComponent(object):
             self._logger.info('Creating directory: {}'.format(dir_path))
 
         # save configuration settings
-        with open(config_file_path, 'w') as yaml_file:
+        with misc.open_atomic(config_file_path, 'w') as yaml_file:
             yaml.dump(self.configuration.dict, yaml_file)
 
         # write data
-        with open(data_file_path, 'wb') as handle:
+        with misc.open_atomic(data_file_path, 'wb') as handle:
             pickle.dump(self.data, handle, protocol=2)
 
         # walk through dependent sub components and save these as well
diff --git a/egenerator/misc.py b/egenerator/misc.py
index fef7ff4..5c9b53d 100644
--- a/egenerator/misc.py
+++ b/egenerator/misc.py
@@ -1,5 +1,35 @@
 from __future__ import division, print_function
+import os
 import importlib
+from contextlib import contextmanager
+
+
+@contextmanager
+def open_atomic(file_path, mode='w'):
+    """Open a file for writing such that it is only replaced once complete.
+
+    The content is written to a temporary file, which replaces the file at
+    'file_path' when the context is left without an error. An existing file is
+    therefore not lost if the process is interrupted while writing.
+
+    Parameters
+    ----------
+    file_path : str
+        The path to the output file.
+    mode : str, optional
+        The mode in which the file is opened.
+
+    Yields
+    ------
+    file object
+        The opened (temporary) file.
+    """
+    temp_file_path = file_path + '.tmp'
+    with open(temp_file_path, mode) as stream:
+        yield stream
+        stream.flush()
+        os.fsync(stream.fileno())
+    os.replace(temp_file_path, file_path)
 
 
 def load_class(full_class_string):
diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index e2f5aa1..0f46e97 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -8,6 +8,7 @@ import glob
 from datetime import datetime
 import time
 
+from egenerator import misc
 from egenerator.manager.component import BaseComponent, Configuration
 
 
@@ -374,7 +375,7 @@ class Model(tf.Module, BaseComponent):
                         os.remove(file)
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
+        with misc.open_atomic(yaml_file) as stream:
             yaml.dump(meta_data, stream)
 
     def update_num_training_steps(self, dir_path, num_training_steps):
@@ -407,7 +408,7 @@ class Model(tf.Module, BaseComponent):
             num_training_steps
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
+        with misc.open_atomic(yaml_file) as stream:
             yaml.dump(meta_data, stream)
 
     def save_training_settings(self, dir_path, new_training_settings):
@@ -488,7 +489,7 @@ class Model(tf.Module, BaseComponent):
             component.save(component_dir)
 
         # save new meta data
-        with open(yaml_file, 'w') as stream:
+        with misc.open_atomic(yaml_file) as stream:
             yaml.dump(meta_data, stream)
 
     def _save(self, dir_path, max_keep=3, protected=False, description=None,
-- 
2.43.0


From 6de3038f2134c6f67a28aad3bbbb3fdb60286517 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:08:03 +0000
Subject: [PATCH 05/89] fix: old checkpoints were removed before the new one
 was recorded

---
 egenerator/model/base.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index 0f46e97..3ad4199 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -355,7 +355,8 @@ class Model(tf.Module, BaseComponent):
         # save checkpoint
         self._untracked_data['checkpoint'].write(checkpoint_file)
 
-        # remove old checkpoints
+        # collect old checkpoints
+        files_to_remove = []
         if not protected:
             old_checkpoint_numbers = \
                 sorted(meta_data['unprotected_checkpoints'].keys())
@@ -365,19 +366,23 @@ class Model(tf.Module, BaseComponent):
                     # remove entry from tracked checkpoints meta data
                     info = meta_data['unprotected_checkpoints'].pop(number)
 
-                    # remove files
                     pattern = os.path.join(dir_path,
                                            info['file_basename'] + '.*')
-                    files_to_remove = glob.glob(pattern)
-                    msg = 'Removing old checkpoint files: {!r}'
-                    self._logger.info(msg.format(files_to_remove))
-                    for file in files_to_remove:
-                        os.remove(file)
+                    files_to_remove.extend(glob.glob(pattern))
 
         # save new meta data
         with misc.open_atomic(yaml_file) as stream:
             yaml.dump(meta_data, stream)
 
+        # remove old checkpoints
+        # Note: this may only be done once the meta data on disk does not
+        # refer to these anymore
+        if files_to_remove:
+            msg = 'Removing old checkpoint files: {!r}'
+            self._logger.info(msg.format(files_to_remove))
+            for file in files_to_remove:
+                os.remove(file)
+
     def update_num_training_steps(self, dir_path, num_training_steps):
         """Update the number of training iterations for current training step.
 
-- 
2.43.0


From 3a4ca8d77bf0f1c8ed4887509e82cf5afa965266 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:11:11 +0000
Subject: [PATCH 06/89] fix: files of an interrupted save blocked all later
 saves

---
 egenerator/model/base.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/egenerator/model/base.py b/egenerator/model/base.py
index 3ad4199..bc965d1 100644
--- a/egenerator/model/base.py
+++ b/egenerator/model/base.py
@@ -317,7 +317,14 @@ class Model(tf.Module, BaseComponent):
         checkpoint_file = checkpoint_pattern.format(checkpoint_index)
 
         # check if file already exists
-        if os.path.exists(checkpoint_file+'.index'):
+        if os.path.exists(yaml_file):
+
+            # skip files that an interrupted call left behind
+            while os.path.exists(checkpoint_file+'.index'):
+                checkpoint_index += 1
+                checkpoint_file = checkpoint_pattern.format(checkpoint_index)
+
+        elif os.path.exists(checkpoint_file+'.index'):
             raise IOError('Checkpoint file {!r} already exists!'.format(
                 checkpoint_file))
 
@@ -327,13 +334,20 @@ class Model(tf.Module, BaseComponent):
             msg = 'Checkpoint index {!r} already exists in meta data: {!r}!'
             raise KeyError(msg.format(checkpoint_index, meta_data))
 
+        # make sure the meta data file exists before files are written
+        if not os.path.exists(yaml_file):
+            if not os.path.isdir(dir_path):
+                os.makedirs(dir_path)
+            with misc.open_atomic(yaml_file) as stream:
+                yaml.dump(meta_data, stream)
+
         # update number of training steps
         if num_training_steps is not None:
             self.update_num_training_steps(
                 dir_path=dir_path, num_training_steps=num_training_steps)
 
         # update latest checkpoint index
-        meta_data['latest_checkpoint'] += 1
+        meta_data['latest_checkpoint'] = checkpoint_index
 
         # add entry to meta data
         now = datetime.now()
@@ -451,17 +465,17 @@ class Model(tf.Module, BaseComponent):
             }
 
         training_index = meta_data['latest_step'] + 1
-        training_step_dir = os.path.join(training_dir,
-                                         'step_{:04d}'.format(training_index))
+        training_step_pattern = os.path.join(training_dir, 'step_{:04d}')
+        training_step_dir = training_step_pattern.format(training_index)
 
-        # check if file already exists
-        if os.path.exists(training_step_dir):
-            raise IOError('Training dicrectory {!r} already exists!'.format(
-                training_step_dir))
-        else:
-            os.makedirs(training_step_dir)
-            msg = 'Creating directory: {!r}'
-            self._logger.info(msg.format(training_step_dir))
+        # skip directories that an interrupted call left behind
+        while os.path.exists(training_step_dir):
+            training_index += 1
+            training_step_dir = training_step_pattern.format(training_index)
+
+        os.makedirs(training_step_dir)
+        msg = 'Creating directory: {!r}'
+        self._logger.info(msg.format(training_step_dir))
 
         # check if meta data already exists
         if training_index in meta_data['training_steps']:
@@ -469,7 +483,7 @@ class Model(tf.Module, BaseComponent):
             raise KeyError(msg.format(training_index, meta_data))
 
         # update latest training step
-        meta_data['latest_step'] += 1
+        meta_data['latest_step'] = training_index
 
         # add entry to meta data
         now = datetime.now()
-- 
2.43.0


From e7c0cb54a28ed291087759bb9304c020c50e4fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 07/89] fix: components saved by another version could not be
 loaded

---
 egenerator/manager/component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index e5d18fe..488c5bb 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -184,7 +184,7 @@ class Configuration(object):
 
         self._logger = logger or logging.getLogger(__name__)
         self._dict = {
-            'event_generator_version': egenerator.__version__,
+            'event_generator_version': event_generator_version,
             'event_generator_git_sha': event_generator_git_sha,
             'event_generator_origin': event_generator_origin,
             'event_generator_uncommitted_changes':
@@ -918,7 +918,9 @@ class BaseComponent(object):
             msg = 'Event-Generator versions do not match. '
             msg += 'Saved component was created with version {!r}, but this is'
             msg += ' version {!r}.'
-            self.logger.warning(msg.format())
+            self._logger.warning(msg.format(
+                config_dict['event_generator_version'],
+                egenerator.__version__))
 
         # check if this is the correct class
         if self.configuration.class_string != \
-- 
2.43.0


From aced2ddf1cfea4e986d6589f3132041b631b9bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 08/89] fix: loading a component consumed the passed
 modified_sub_components

---
 egenerator/manager/component.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 488c5bb..9ea3024 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -894,6 +894,9 @@ class BaseComponent(object):
         if self.is_configured:
             raise ValueError('Component is already configured!')
 
+        # entries are removed once they are used: do not modify the passed dict
+        modified_sub_components = dict(modified_sub_components)
+
         # check if it already has attributes other than the allowed ones
         # This indicates an incorrect usage of the BaseComponent class.
         self._check_member_attributes()
-- 
2.43.0


From 0fbc4e65e9def52659b4e6287725e30bafb207a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 09/89] fix: sub components passed under the same name replaced
 each other

---
 egenerator/manager/component.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 9ea3024..c1801ab 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -607,10 +607,17 @@ class BaseComponent(object):
         # collect configurations of sub components from kwargs
         missing_settings = {}
         parameter_sub_components = {}
+
+        def check_name(name):
+            if name in parameter_sub_components:
+                raise KeyError('Sub component {!r} already exists!'.format(
+                                                                        name))
+
         for key, value in kwargs.items():
 
             if issubclass(type(value), BaseComponent):
                 # found another component, keep track of it
+                check_name(key)
                 parameter_sub_components[key] = value
 
                 # make sure the component is configured
@@ -625,6 +632,7 @@ class BaseComponent(object):
                 for name, comp in value.items():
                     if issubclass(type(comp), BaseComponent):
                         # found another component, keep track of it
+                        check_name(name)
                         parameter_sub_components[name] = comp
 
                         # make sure the component is configured
@@ -645,6 +653,7 @@ class BaseComponent(object):
                     name = key + '_{:04d}'.format(i)
                     if issubclass(type(comp), BaseComponent):
                         # found another component, keep track of it
+                        check_name(name)
                         parameter_sub_components[name] = comp
 
                         # make sure the component is configured
-- 
2.43.0


From e309c9739fae9c0ccd10bd4207a7cedfe31f7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 10/89] fix: updated mutable settings were shared with the
 caller

---
 egenerator/manager/component.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index c1801ab..23a4883 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -219,7 +219,7 @@ class Configuration(object):
             if key not in self._dict['mutable_settings']:
                 raise KeyError('Mutable setting: {!r} does not exist'.format(
                     key))
-            self._dict['mutable_settings'][key] = value
+            self._dict['mutable_settings'][key] = deepcopy(value)
 
         # update config
         self._config = self._combine_settings()
-- 
2.43.0


From b304e7e3bb06ef4be53206a695ff1989eb8d63a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:32 +0000
Subject: [PATCH 11/89] fix: sub components of a failed attempt stayed in a
 loaded component

---
 egenerator/manager/component.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 23a4883..959ccf6 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -951,6 +951,8 @@ class BaseComponent(object):
                     type(self._data)))
 
         # walk through dependent sub components and load these as well
+        # (a previous failed attempt may have left sub components behind)
+        self._sub_components = {}
         updated_sub_components = []
         for name in self.configuration.dependent_sub_components:
 
-- 
2.43.0


From 5d1f2030c36ea8c3a92e924dc0411ad6edd858e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:03 +0000
Subject: [PATCH 12/89] fix: events without vector elements were turned into an
 empty list

---
 egenerator/data/handler/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index 720fb8b..a99ca08 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -561,6 +561,11 @@ class BaseDataHandler(BaseComponent):
             values_list = np.stack(values_list, axis=0)
             indices_list = np.stack(indices_list, axis=0)
 
+        elif num_events > 0:
+            # no elements in any of the events: keep shape and data type
+            values_list = np.concatenate(values, axis=0)
+            indices_list = np.concatenate(indices, axis=0)
+
         return values_list, indices_list
 
     def get_batch_generator(self, input_data, batch_size,
-- 
2.43.0


From 2038c20c3b1688cc8f993df8fec9ae2b4e54e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:49 +0000
Subject: [PATCH 13/89] fix: filtering events failed if there are non-existing
 tensors

---
 egenerator/data/handler/modular.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/handler/modular.py b/egenerator/data/handler/modular.py
index e28ddba..068fdaf 100644
--- a/egenerator/data/handler/modular.py
+++ b/egenerator/data/handler/modular.py
@@ -454,10 +454,11 @@ class ModuleDataHandler(BaseDataHandler):
         for tensor_index, tensor in enumerate(self.tensors.list):
 
             # check if data exists
-            if event_batch[tensor_index] is None:
+            if event_batch[tensor_index] is None and \
+                    tensor.vector_info is None:
                 filtered_batch[tensor_index] = None
 
-            if tensor.vector_info is not None:
+            elif tensor.vector_info is not None:
                 if tensor.vector_info['type'] == 'value':
                     # we are collecting value tensors together with
                     # the indices tensors, so skip for now
-- 
2.43.0


From fbd236acaedf6a295d1a134380c84d7fa9090f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:53 +0000
Subject: [PATCH 14/89] fix: data trafo could not be created for tensors with
 one number per event

---
 egenerator/data/trafo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/trafo.py b/egenerator/data/trafo.py
index ebec323..f8e825e 100644
--- a/egenerator/data/trafo.py
+++ b/egenerator/data/trafo.py
@@ -162,7 +162,8 @@ class DataTransformer(BaseComponent):
                 # set constant parameters to have a std dev of 1
                 # instead of zero
                 mask = data[tensor.name+'_std'] == 0
-                data[tensor.name+'_std'][mask] = 1.
+                data[tensor.name+'_std'] = np.where(
+                    mask, 1., data[tensor.name+'_std'])
 
                 # create check values for a simplified test to see if the data
                 # matches. This is only a simple hash (mean of tensor values)
-- 
2.43.0


From 644a987006da12ebba3666848e684e4c45a4d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:30 +0000
Subject: [PATCH 15/89] fix: covariance matrices could not be transformed back
 for tensors and reduced axes

---
 egenerator/data/trafo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/trafo.py b/egenerator/data/trafo.py
index f8e825e..e8fba02 100644
--- a/egenerator/data/trafo.py
+++ b/egenerator/data/trafo.py
@@ -492,11 +492,14 @@ class DataTransformer(BaseComponent):
         # V_trafo = B V B^T
         # V = B^-1 V_trafo (B^T)^-1
         # Define B^-1 which is a diagonal matrix
-        B_inv = np.diag(
-            self.data['norm_constant'] + self.data[tensor_name+'_std'])
+        # Note: reduced axes only have one common standard deviation
+        B_inv = np.diag(np.broadcast_to(
+            self.data['norm_constant'] + self.data[tensor_name+'_std'],
+            [cov_trafo.shape[-1]]))
 
         # Since B is diagonal: B = B^T
         if is_tf:
+            B_inv = tf.constant(B_inv, dtype=self.data['tf_float_dtype'])
             cov = tf.matmul(tf.matmul(B_inv, cov_trafo), B_inv)
         else:
             cov = np.matmul(np.matmul(B_inv, cov_trafo), B_inv)
-- 
2.43.0


From 84868d24a02713dffb7ae6b5ee20f75a87be8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:25 +0000
Subject: [PATCH 16/89] fix: configuring a multi source changed the caller's
 base sources

---
 egenerator/model/multi_source/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index d8f95af..5a98bdc 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -212,7 +212,7 @@ class MultiSource(Source):
         parameter_names, sources = self.get_parameters_and_mapping(
             config, base_sources)
 
-        sub_components = base_sources
+        sub_components = dict(base_sources)
         if data_trafo is not None:
             sub_components['data_trafo'] = data_trafo
 
-- 
2.43.0


From 650cde09448e5b0dc86abc0a8045a48e7453eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 17/89] fix: all sources of a multi source were evaluated with
 the same base source

---
 egenerator/model/multi_source/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index 5a98bdc..c4cb940 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -316,10 +316,9 @@ class MultiSource(Source):
         # -----------------------------------------------
         input_signature = None
 
-        concrete_get_tensors_funcs = {}
-        for base in set(self._untracked_data['sources'].values()):
-            base_source = self.sub_components[base]
-
+        def get_concrete_function(base, base_source):
+            # Note: this needs to be a separate function, so that each of
+            # the traced functions is bound to its own base source.
             @tf.function(input_signature=input_signature)
             def concrete_function(data_batch_dict_i):
                 print('Tracing multi-source base: {}'.format(base))
@@ -327,7 +326,12 @@ class MultiSource(Source):
                                 data_batch_dict_i,
                                 is_training=is_training,
                                 parameter_tensor_name='x_parameters')
-            concrete_get_tensors_funcs[base] = concrete_function
+            return concrete_function
+
+        concrete_get_tensors_funcs = {}
+        for base in set(self._untracked_data['sources'].values()):
+            concrete_get_tensors_funcs[base] = get_concrete_function(
+                base, self.sub_components[base])
         # -----------------------------------------------
 
         dom_charges = None
-- 
2.43.0


From e5ebe04ca3fbda40ca10e724fe0a1fa6ed2af852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 18/89] fix: stochastic track model appended all parameters if
 there are no systematic ones

---
 egenerator/model/multi_source/track/stochastic_track.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/multi_source/track/stochastic_track.py b/egenerator/model/multi_source/track/stochastic_track.py
index b700a17..eb957f9 100644
--- a/egenerator/model/multi_source/track/stochastic_track.py
+++ b/egenerator/model/multi_source/track/stochastic_track.py
@@ -119,7 +119,8 @@ class StochasticTrackModel(MultiSource):
         d_end = parameters.params['track_distance_end']
 
         num_snowstorm_params = self._untracked_data['num_snowstorm_params']
-        snowstorm_params = parameters[:, -num_snowstorm_params:]
+        snowstorm_params = parameters[
+            :, self.num_parameters - num_snowstorm_params:]
 
         # calculate direction vector
         dir_x = -tf.sin(zenith) * tf.cos(azimuth)
-- 
2.43.0


From 4ef80551707a02cf8c6abebe310ce06a7bbe6892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 19/89] fix: parameters of a multi source could have the same
 name

---
 egenerator/model/multi_source/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/model/multi_source/base.py b/egenerator/model/multi_source/base.py
index c4cb940..a1e98fa 100644
--- a/egenerator/model/multi_source/base.py
+++ b/egenerator/model/multi_source/base.py
@@ -212,6 +212,10 @@ class MultiSource(Source):
         parameter_names, sources = self.get_parameters_and_mapping(
             config, base_sources)
 
+        if len(set(parameter_names)) != len(parameter_names):
+            msg = 'Parameter names are not unique: {!r}'
+            raise ValueError(msg.format(parameter_names))
+
         sub_components = dict(base_sources)
         if data_trafo is not None:
             sub_components['data_trafo'] = data_trafo
-- 
2.43.0


From baa2689f3a54fc1a670bc8b039cfede0512bd1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 20/89] fix: boolean tensors could not be defined with recent
 numpy versions

---
 egenerator/data/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/tensor.py b/egenerator/data/tensor.py
index a92da26..853953d 100644
--- a/egenerator/data/tensor.py
+++ b/egenerator/data/tensor.py
@@ -95,7 +95,8 @@ class DataTensor(object):
         if not isinstance(self.dtype, str):
             raise ValueError('{!r} != {!r}'.format(type(self.dtype), str))
 
-        if not hasattr(np, self.dtype):
+        # Note: np.bool does not exist in some of the numpy versions
+        if self.dtype != 'bool' and not hasattr(np, self.dtype):
             raise ValueError('Invalid dtype str: {!r}'.format(self.type))
 
         if self.vector_info is not None:
-- 
2.43.0


From 3dbf51b56bae55098f8a0afa18e2e695b5a56b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:20 +0000
Subject: [PATCH 21/89] fix: sorted terms of the extended pulse likelihood lost
 all but normalization

---
 egenerator/loss/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 8d65c40..ab103ad 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -341,7 +341,7 @@ class DefaultLossModule(BaseComponent):
             norm_pulses = self.log_faculty(pulse_charges)
             norm_doms = self.log_faculty(dom_charges_true)
             if sort_loss_terms:
-                loss_terms[2] = norm_doms
+                loss_terms[2] += norm_doms
                 loss_terms[2] = tf.tensor_scatter_nd_add(
                     loss_terms[2],
                     indices=data_batch_dict['x_pulses_ids'],
-- 
2.43.0


From a57caafc5b76e80f336117f6a70a0eea7267bcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 22/89] fix: sorted and normalized terms of the pulse and DOM
 charge PDF could not be added

---
 egenerator/loss/default.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index ab103ad..d962ee2 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -527,8 +527,8 @@ class DefaultLossModule(BaseComponent):
         pulse_charges = data_batch_dict['x_pulses'][:, 0]
         pulse_pdf_values = result_tensors['pulse_pdf']
 
-        # shape: [n_batch, 86, 60, 1]
-        hits_true = data_batch_dict['x_dom_charge']
+        # shape: [n_batch, 86, 60]
+        hits_true = tf.squeeze(data_batch_dict['x_dom_charge'], axis=-1)
 
         # get charge likelihood over total charge at a DOM for extendended LLH
         # shape: [n_batch, 86, 60]
-- 
2.43.0


From eb4e4eacc6a7676b09a04be8f8d04b0d1eaf1813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 23/89] fix: excluded DOMs changed the normalization of the
 pulse and DOM charge PDF

---
 egenerator/loss/default.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index d962ee2..7de13bd 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -551,6 +551,7 @@ class DefaultLossModule(BaseComponent):
                 tf.squeeze(data_batch_dict['x_dom_exclusions'], axis=-1),
                 dtype=dtype)
             llh_charge = llh_charge * mask_valid
+            hits_true = hits_true * mask_valid
 
         # prevent log(zeros) issues
         eps = 1e-7
-- 
2.43.0


From 4c67014a4474158b211361b8520af85d2b402b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 24/89] fix: normalized DOM charge PDF was not normalized over
 the DOMs that are left after exclusions

---
 egenerator/loss/default.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/egenerator/loss/default.py b/egenerator/loss/default.py
index 7de13bd..2213758 100644
--- a/egenerator/loss/default.py
+++ b/egenerator/loss/default.py
@@ -1175,13 +1175,6 @@ class DefaultLossModule(BaseComponent):
         dom_charges_variance = tf.squeeze(
             result_tensors['dom_charges_variance'], axis=-1)
 
-        # shape: [n_batch, 1, 1]
-        event_total = tf.reduce_sum(hits_pred, axis=[1, 2], keepdims=True)
-
-        # shape: [n_batch, 86, 60]
-        dom_pdf = hits_pred / event_total
-        llh_dom = hits_true * tf.math.log(dom_pdf + eps)
-
         # throw error if this is being used with time window exclusions
         # one needs to calculate cumulative pdf from exclusion window and
         # scale up the pulse pdf by this factor
@@ -1197,7 +1190,15 @@ class DefaultLossModule(BaseComponent):
             mask_valid = tf.cast(
                 tf.squeeze(data_batch_dict['x_dom_exclusions'], axis=-1),
                 dtype=dtype)
-            llh_dom = llh_dom * mask_valid
+            hits_true = hits_true * mask_valid
+            hits_pred = hits_pred * mask_valid
+
+        # shape: [n_batch, 1, 1]
+        event_total = tf.reduce_sum(hits_pred, axis=[1, 2], keepdims=True)
+
+        # shape: [n_batch, 86, 60]
+        dom_pdf = hits_pred / event_total
+        llh_dom = hits_true * tf.math.log(dom_pdf + eps)
 
         if sort_loss_terms:
             loss_terms = [
-- 
2.43.0


From 9eb2201f1e0544ceb847b2ef538acbe3943c29ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 25/89] fix: loss of the snowstorm priors could not be computed

---
 egenerator/loss/snowstorm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/loss/snowstorm.py b/egenerator/loss/snowstorm.py
index 437799c..71de94e 100644
--- a/egenerator/loss/snowstorm.py
+++ b/egenerator/loss/snowstorm.py
@@ -253,7 +253,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if num_sigmas > 0:
             start_index = model.get_index('IceWavePlusModes_00')
             end_index = model.get_index('IceWavePlusModes_{:02d}'.format(
-                                                            num_sigmas)) + 1
+                                                        num_sigmas - 1)) + 1
             assert end_index - start_index == num_sigmas
             for i, exp_index in enumerate(range(start_index, end_index)):
                 index = model.get_index('IceWavePlusModes_{:02d}'.format(i))
@@ -262,7 +262,8 @@ class SnowstormPriorLossModule(BaseComponent):
             # shape: [batch, n_fourier]
             fourier_values = parameters[:, start_index:end_index]
 
-            fourier_sigmas = tf.expand_dims(self.sigmas, axis=0)
+            fourier_sigmas = tf.expand_dims(tf.convert_to_tensor(
+                self.sigmas, dtype=fourier_values.dtype), axis=0)
             fourier_log_pdf = basis_functions.tf_log_gauss(
                 fourier_values,
                 mu=tf.zeros_like(fourier_sigmas),
@@ -276,7 +277,7 @@ class SnowstormPriorLossModule(BaseComponent):
         if sort_loss_terms:
             event_loss = None
             for loss_term in loss_terms:
-                if (loss_term.shape) > 1:
+                if len(loss_term.shape) > 1:
                     loss_term = tf.reduce_sum(loss_term, axis=1)
                 if event_loss is None:
                     event_loss = loss_term
-- 
2.43.0


From e28b7a38a4377ec324e57ee1615e67df30e8700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:46 +0000
Subject: [PATCH 26/89] fix: itemised total losses changed the loss terms of
 their components

---
 egenerator/loss/multi_loss.py | 2 +-
 egenerator/manager/source.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/loss/multi_loss.py b/egenerator/loss/multi_loss.py
index 013b7d6..481658b 100644
--- a/egenerator/loss/multi_loss.py
+++ b/egenerator/loss/multi_loss.py
@@ -165,7 +165,7 @@ class MultiLossModule(BaseComponent):
                     assert len(loss_i) == 3, (loss_module, loss_i)
 
                     if loss_terms == []:
-                        loss_terms = loss_i
+                        loss_terms = list(loss_i)
                     else:
                         for term_index in range(3):
                             loss_terms[term_index] += loss_i[term_index]
diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 33c7fe0..d117256 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -151,8 +151,8 @@ class SourceManager(BaseModelManager):
                 if reduce_to_scalar:
                     loss += loss_i
                 else:
-                    for index in range(len(loss_i)):
-                        loss[index] += loss_i[index]
+                    loss = [loss[index] + loss_i[index]
+                            for index in range(len(loss_i))]
         return loss
 
     def get_parameter_loss_function(self, loss_module, input_signature,
-- 
2.43.0


From 11e33c0f1f28cf43cc00a11fb1ef39af2e12db58 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 27/89] fix: some of the parameters could not be fitted if the
 seed is a tensor

---
 egenerator/manager/source.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index d117256..0e9a655 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -688,7 +688,7 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = np.asarray(seed_array_trafo)[:, fit_paramater_list]
 
         x0_flat = np.reshape(x0, [-1])
         result = optimize.minimize(fun=func, x0=x0_flat, jac=jac,
@@ -794,7 +794,7 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = np.asarray(seed_array_trafo)[:, fit_paramater_list]
 
         # get spherical indices
         if minimize_in_trafo_space or not np.all(fit_paramater_list):
@@ -1051,7 +1051,8 @@ class SourceManager(BaseModelManager):
             x0 = seed_array_trafo
         else:
             # get seed parameters
-            x0 = seed_array_trafo[:, fit_paramater_list]
+            x0 = tf.gather(
+                seed_array_trafo, np.flatnonzero(fit_paramater_list), axis=1)
 
         # convert to tensors
         def const_loss_and_gradients_function(x):
-- 
2.43.0


From 830b232f9f57beda0481afbcf32862a070ede685 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 28/89] fix: bounds of fits had to be finite and of all
 parameters of a single event

---
 egenerator/manager/source.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 0e9a655..dffefe0 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -667,17 +667,6 @@ class SourceManager(BaseModelManager):
             seed_array = seed
         if minimize_in_trafo_space:
 
-            # transform bounds if provided
-            if 'bounds' in kwargs:
-                bounds = self.data_trafo.transform(
-                    data=np.array(kwargs['bounds']).T,
-                    tensor_name=parameter_tensor_name).T
-                for i, bound in enumerate(bounds):
-                    for j in range(2):
-                        if not np.isfinite(bound[j]):
-                            bounds[i, j] = None
-                kwargs['bounds'] = bounds
-
             seed_array_trafo = self.data_trafo.transform(
                 data=seed_array, tensor_name=parameter_tensor_name)
         else:
@@ -690,6 +679,21 @@ class SourceManager(BaseModelManager):
             # get seed parameters
             x0 = np.asarray(seed_array_trafo)[:, fit_paramater_list]
 
+        # get bounds of the parameters that are fitted for each of the events
+        if kwargs.get('bounds') is not None:
+            bounds = np.array([
+                [-np.inf if low is None else low,
+                 np.inf if high is None else high]
+                for low, high in kwargs['bounds']], dtype=float)
+            if minimize_in_trafo_space:
+                bounds = self.data_trafo.transform(
+                    data=bounds.T, tensor_name=parameter_tensor_name).T
+                # there is no limit if it is not in the range of the trafo
+                bounds = np.where(
+                    np.isfinite(bounds), bounds, [[-np.inf, np.inf]])
+            bounds = bounds[np.asarray(fit_paramater_list, dtype=bool)]
+            kwargs['bounds'] = np.tile(bounds, [len(x0), 1])
+
         x0_flat = np.reshape(x0, [-1])
         result = optimize.minimize(fun=func, x0=x0_flat, jac=jac,
                                    method=method,
-- 
2.43.0


From d55a0e4094261eb2e2040b53b11cd855ed71bccf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:10:39 +0000
Subject: [PATCH 29/89] fix: Hessian of a single parameter was not a matrix

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index dffefe0..e44e0dc 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -471,7 +471,7 @@ class SourceManager(BaseModelManager):
             # Note: this runs through and works for a batch dimension
             # but it requires some thinking of what the result actually means
             hessian = tf.squeeze(tf.ensure_shape(
-                hessian, [1, parameters_trafo.shape[1]]*2))
+                hessian, [1, parameters_trafo.shape[1]]*2), axis=[0, 2])
 
             return hessian
 
-- 
2.43.0


From 0094eab4881c07dd3cdde361293a74dce4c04e24 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 30/89] fix: covariance could not be calculated in original
 parameter space

---
 egenerator/manager/reconstruction/modules/covariance.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/covariance.py b/egenerator/manager/reconstruction/modules/covariance.py
index 6591592..c0f3d05 100644
--- a/egenerator/manager/reconstruction/modules/covariance.py
+++ b/egenerator/manager/reconstruction/modules/covariance.py
@@ -157,6 +157,12 @@ class CovarianceMatrix:
                     cov_trafo=result_obj.hess_inv,
                     tensor_name=self.parameter_tensor_name,
                 )
+        else:
+            # there is nothing to be transformed back
+            cov, cov_sand = cov_trafo, cov_sand_trafo
+            if hasattr(result_obj, 'hess_inv'):
+                cov_sand_fit = cov_sand_fit_trafo
+                cov_fit = result_obj.hess_inv
 
         results = {
             'cov': cov,
-- 
2.43.0


From b26cb218c533442e8ea3094e7057f4b8729447b1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 31/89] fix: seeds of the spherical optimizer were only
 possible for seven fitted parameters

---
 egenerator/manager/source.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index e44e0dc..b9ca4db 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -814,8 +814,11 @@ class SourceManager(BaseModelManager):
         # ----------------------
         # HACK TO ADD MORE SEEDS
         # ----------------------
+        scale = np.ones(len(fit_paramater_list))
+        scale[:7] = [10, 10, 10, 1, 1, 100, 10][:len(scale)]
+        scale = scale[np.asarray(fit_paramater_list, dtype=bool)]
         x0 = np.tile(x0, (batch_size*20, 1))
-        x0[1:] = np.random.normal(x0[1:], scale=[[10, 10, 10, 1, 1, 100, 10]])
+        x0[1:] = np.random.normal(x0[1:], scale=[scale])
         # ----------------------
 
         result = spherical_opt(
-- 
2.43.0


From a4c60c1050b12a8bfaaa26ec6c9c4a7238fa04f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 32/89] fix: Markov chains in transformed space did not start
 at the reconstruction

---
 egenerator/manager/reconstruction/modules/mcmc.py | 14 ++++++++++----
 egenerator/manager/source.py                      |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/mcmc.py b/egenerator/manager/reconstruction/modules/mcmc.py
index 56161bd..b0c36c8 100644
--- a/egenerator/manager/reconstruction/modules/mcmc.py
+++ b/egenerator/manager/reconstruction/modules/mcmc.py
@@ -166,9 +166,16 @@ class MarkovChainMonteCarlo:
         #                             data=initial_position,
         #                             tensor_name=self.parameter_tensor_name)
 
+        initial_position = np.tile(result_inv, [self.mcmc_num_chains, 1])
+        if self.minimize_in_trafo_space:
+            # the chains run in transformed parameter space
+            initial_position = self.manager.data_trafo.transform(
+                data=initial_position,
+                tensor_name=self.parameter_tensor_name)
+
         initial_position = tf.reshape(
             tf.convert_to_tensor(
-                np.tile(result_inv, [self.mcmc_num_chains, 1]),
+                initial_position,
                 dtype=self.param_dtype),
             [self.mcmc_num_chains, len(self.fit_paramater_list)])
         print('initial_position', initial_position)
@@ -195,10 +202,9 @@ class MarkovChainMonteCarlo:
             mcmc_end_t - mcmc_start_t))
         print('\tAcceptance Ratio: {:2.1f}%'.format(
             (100. * num_accepted) / num_samples))
-        msg = '{:1.4f} {:1.4f} {:1.4f} {:1.4f} {:1.4f} {:1.4f} {:1.4f}'
         if len(trace) > 2:
-            print('\tStepsize: ' + msg.format(*step_size))
-        msg = '{:1.2f} {:1.2f} {:1.2f} {:1.2f} {:1.2f} {:1.2f} {:1.2f}'
+            print('\tStepsize: ' + ' '.join(
+                '{:1.4f}'.format(step) for step in step_size))
 
         # gather results
         results = {
diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index b9ca4db..96ebcd8 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1177,7 +1177,7 @@ class SourceManager(BaseModelManager):
         if method == 'HamiltonianMonteCarlo':
             step_size = [[.1, .1, .1, 0.01, 0.02, 10., 1.]]
 
-        if num_params != len(step_size):
+        if num_params != len(step_size[0]):
             step_size = [[0.1 for p in range(num_params)]]
 
         step_size = np.array(step_size)
-- 
2.43.0


From 46940d40d04923d72106e28b811f33635b3612d5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 33/89] fix: settings of global fits were kept for later fits

---
 egenerator/manager/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 96ebcd8..1f537a3 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -914,8 +914,9 @@ class SourceManager(BaseModelManager):
             raise ValueError(msg.format(param_tensor.shape[1],
                                         len(fit_paramater_list)))
 
-        minimizer_kwargs['jac'] = jac
-        options['jac'] = jac
+        # the settings of this fit must not end up in those of others
+        minimizer_kwargs = dict(minimizer_kwargs, jac=jac)
+        options = dict(options, jac=jac)
 
         # define helper function
         def func(x, data_batch, seed):
-- 
2.43.0


From 2d22fa9ded3874d8df256f831bd175f2c3b43b91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:12:47 +0000
Subject: [PATCH 34/89] fix: global fits of some of the parameters had bounds
 for all of them

---
 egenerator/manager/source.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 1f537a3..dcf7da2 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -959,7 +959,9 @@ class SourceManager(BaseModelManager):
         # For now: add +- 1 in trafo space
         # ToDo: allow to pass proper boundaries and uncertainties
         assert minimize_in_trafo_space, 'currently only for trafo space'
-        bounds = np.concatenate((seed_array_trafo - 1, seed_array_trafo + 1)).T
+        x0 = np.asarray(seed_array_trafo)[
+            :, np.asarray(fit_paramater_list, dtype=bool)]
+        bounds = np.concatenate((x0 - 1, x0 + 1)).T
 
         def callback(xk):
             print(xk)
-- 
2.43.0


From e0bb015c22a51b3d042a073e9385437d4140e402 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 35/89] fix: events could not be reconstructed with the
 optimizers of tensorflow probability

---
 egenerator/manager/source.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index dcf7da2..960d082 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1064,6 +1064,9 @@ class SourceManager(BaseModelManager):
             x0 = tf.gather(
                 seed_array_trafo, np.flatnonzero(fit_paramater_list), axis=1)
 
+        # there is one loss: only one event can be reconstructed at a time
+        x0 = tf.ensure_shape(x0, [1, num_fit_params])
+
         # convert to tensors
         def const_loss_and_gradients_function(x):
             # convert to tensors
-- 
2.43.0


From ed0c134d5041c3fe43142351e2b877f3a3246912 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 36/89] fix: the last instead of the best reconstruction was
 selected

---
 egenerator/manager/reconstruction/modules/reconstruction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/reconstruction.py b/egenerator/manager/reconstruction/modules/reconstruction.py
index f740713..d7ad8c2 100644
--- a/egenerator/manager/reconstruction/modules/reconstruction.py
+++ b/egenerator/manager/reconstruction/modules/reconstruction.py
@@ -341,7 +341,6 @@ class SelectBestReconstruction:
             if reco_results['loss_reco'] < min_loss:
                 min_loss = reco_results['loss_reco']
                 min_results = reco_results
-        min_results = dict(reco_results)
 
         if min_results is None:
 
@@ -351,6 +350,9 @@ class SelectBestReconstruction:
                 reco_name))
             min_results = reco_results
 
+        # the results of the chosen module must not be changed
+        min_results = dict(min_results)
+
         # rename runtime key of result
         min_results['reco_runtime'] = min_results.pop('runtime')
 
-- 
2.43.0


From 8c2c5d7761732aa0979362b47f6df93d0d220d44 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 37/89] fix: changing settings afterwards changed those of
 cached functions

---
 egenerator/manager/reconstruction/tray.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/egenerator/manager/reconstruction/tray.py b/egenerator/manager/reconstruction/tray.py
index eb137c7..3b24adb 100644
--- a/egenerator/manager/reconstruction/tray.py
+++ b/egenerator/manager/reconstruction/tray.py
@@ -167,6 +167,12 @@ class FunctionCache:
         KeyError
             If function with specified settings already exists in cache.
         """
+        # later changes of the settings must not change those of the function
+        settings = {
+            key: list(value) if isinstance(value, list) else value
+            for key, value in settings.items()
+        }
+
         if function.__name__ in self.functions:
 
             # check if the function already exists
-- 
2.43.0


From 7cbf2a79f1d2597accd66dd7bb4188f90dddaeaa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 38/89] fix: changing a list of settings afterwards changed
 added modules

---
 egenerator/manager/reconstruction/tray.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/egenerator/manager/reconstruction/tray.py b/egenerator/manager/reconstruction/tray.py
index 3b24adb..1de87b1 100644
--- a/egenerator/manager/reconstruction/tray.py
+++ b/egenerator/manager/reconstruction/tray.py
@@ -85,6 +85,12 @@ class ReconstructionTray:
         if name in self.module_names:
             raise ValueError('Name {} already exists!'.format(name))
 
+        # later changes of the caller's lists must not change the module
+        settings = {
+            key: list(value) if isinstance(value, list) else value
+            for key, value in settings.items()
+        }
+
         # set up module
         module = ModuleClass(
             manager=self.manager,
-- 
2.43.0


From 083213f1234a51f658779a442d402f60b6ec2e37 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 39/89] fix: the best point of the last iteration of the global
 optimizer was ignored

---
 egenerator/utils/spherical_opt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 171d146..689f5df 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -621,6 +621,8 @@ def spherical_opt(
                     n_calls += 1
 
 
+    best_idx = np.argmin(fvals)
+
     opt_meta = {}
     opt_meta['stopping_flag'] = stopping_flag
     opt_meta['n_calls'] = n_calls
-- 
2.43.0


From 18bb82c7cb9a3784bc5a8f99aac5a1e7c0767414 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 40/89] fix: the global optimizer rounded the spread of
 coordinates down to integers

---
 egenerator/utils/spherical_opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 689f5df..5ed0a70 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -299,8 +299,8 @@ def spherical_opt(
     n_spher = len(spherical_indices)
     n_cart = n_dim - 2 * n_spher
 
-    sstd = np.full(n_spher, fill_value=-1)
-    cstd = np.full(n_cart, fill_value=-1)
+    sstd = np.full(n_spher, fill_value=-1.)
+    cstd = np.full(n_cart, fill_value=-1.)
 
     if meta:
         meta_dict = {}
-- 
2.43.0


From fb27c216a34c9eb5ea414bf44dd4976bbf1e1c17 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 41/89] fix: thresholds for single directions of the global
 optimizer

---
 egenerator/utils/spherical_opt.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 5ed0a70..578da33 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -161,7 +161,8 @@ def angular_dist(p1, p2): # theta1, theta2, phi1, phi2):
     """
     calculate the angular distance between two directions in spherical coords
     """
-    return np.arccos(p1['coszen'] * p2['coszen'] + p1['sinzen'] * p2['sinzen'] * np.cos(p1['az'] - p2['az']))
+    cos_dist = p1['coszen'] * p2['coszen'] + p1['sinzen'] * p2['sinzen'] * np.cos(p1['az'] - p2['az'])
+    return np.arccos(np.clip(cos_dist, -1., 1.))
 
 
 def find_replacements(old_list, new_list, sorted_old_inds=None, sorted_new_inds=None):
@@ -414,8 +415,9 @@ def spherical_opt(
                 thresh_idx = 0
                 for sph_pair_idx, stdthresh in enumerate(sstdthresh):
                     if stdthresh > 0:
-                        _, cent = centroid(np.empty([0, 0]), s_spher)
-                        deltas = angular_dist(s_spher, cent)
+                        pair = s_spher[:, sph_pair_idx]
+                        _, cent = centroid(np.empty([0, 0]), pair)
+                        deltas = angular_dist(pair, cent)
                         std = np.sqrt(np.sum(np.square(deltas)) / (n_points - 1))
                         sstd[sph_pair_idx] = std
                         converged = converged and std < stdthresh
@@ -424,7 +426,7 @@ def spherical_opt(
                                 meta_dict['sstdthresh_met_at_iter'][thresh_idx] = iter_num
                         thresh_idx += 1
                     else:
-                        sstd[i] = -1
+                        sstd[sph_pair_idx] = -1
 
             if converged:
                 stopping_flag = 3
@@ -643,8 +645,8 @@ def spherical_opt(
 
         # Standard deviation of spherical coordinate pairs
         for i in range(n_spher):
-            _, cent = centroid(np.empty([0, 0]), s_spher)
-            deltas = angular_dist(s_spher, cent)
+            _, cent = centroid(np.empty([0, 0]), s_spher[:, i])
+            deltas = angular_dist(s_spher[:, i], cent)
             sstd[i] = np.sqrt(np.sum(np.square(deltas)) / (n_points - 1))
 
         # Standard deviation of func return value (e.g., metric)
-- 
2.43.0


From da2954ad1a0978271cc24ce420e4759ad64db0ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 42/89] fix: number of iterations of the global optimizer

---
 egenerator/utils/spherical_opt.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 578da33..d61f3cb 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -388,11 +388,6 @@ def spherical_opt(
             stopping_flag = 0
             break
 
-        # break condition 2
-        if max_noimprovement and no_improvement_counter > max_noimprovement:
-            stopping_flag = 2
-            break
-
         # break condition 1
         if np.std(fvals) < fstdthresh:
             stopping_flag = 1
@@ -443,6 +438,14 @@ def spherical_opt(
         else:
             no_improvement_counter += 1
 
+        # break condition 2
+        if max_noimprovement and no_improvement_counter > max_noimprovement:
+            stopping_flag = 2
+            break
+
+        if iter_num >= max_iter:
+            break
+
         if method == 'CRS2':
 
             # shuffle into batch_size groups of n_dim points,
-- 
2.43.0


From 081e591e149bd2ef454eaf386e153f5106ca4c56 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 43/89] fix: the global optimizer rounded points and function
 values down to integers

---
 egenerator/utils/spherical_opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index d61f3cb..56714e7 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -345,7 +345,7 @@ def spherical_opt(
     all_cartesian_indices = list(set(range(n_dim)) ^ set(all_spherical_indices))
 
     # first thing, pack the points into separate cartesian and spherical coordinates
-    fvals = vec_func(initial_points)
+    fvals = np.array(vec_func(initial_points), dtype=float)
 
     s_cart = initial_points[:, all_cartesian_indices]
     #print(s_cart)
@@ -355,7 +355,7 @@ def spherical_opt(
     fill_from_spher(s_spher)
 
     # the array containing points in the original form
-    x = copy.copy(initial_points)
+    x = np.array(initial_points, dtype=float)
 
     def create_x(x_cart, x_spher):
         '''Patch Cartesian and spherical coordinates back together into one array for function calls'''
-- 
2.43.0


From ec74de659c0c818524598255b893de5e80c2d6e8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:35:15 +0000
Subject: [PATCH 44/89] fix: undefined function values stopped the progress of
 the global optimizer

---
 egenerator/utils/spherical_opt.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index 56714e7..e5b0e6c 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -281,13 +281,24 @@ def spherical_opt(
     if not method in ['Nelder-Mead', 'CRS2']:
         raise ValueError('Unknown method %s, choices are Nelder-Mead or CRS2'%method)
 
+    objective = func
+
     if batch_size > 1:
         if method != 'CRS2':
             raise ValueError(
                 'batch_size > 1 is only supported for the CRS2 method!'
                 f' You selected the {method} method.')
-        vec_func = func
+        def vec_func(x):
+            values = np.array(objective(x), dtype=float)
+            # undefined values must not be compared to other ones
+            values[np.isnan(values)] = np.inf
+            return values
     else:
+        def func(x):
+            value = objective(x)
+            # undefined values must not be compared to other ones
+            return np.inf if np.isnan(value) else value
+
         def vec_func(x):
             return np.array([func(x_i) for x_i in x])
 
-- 
2.43.0


From 0f6c36e9107ff809ee2157fb99aee81f00ba0338 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 45/89] fix: integer coordinates were kept by the global
 optimizer

---
 egenerator/utils/spherical_opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/utils/spherical_opt.py b/egenerator/utils/spherical_opt.py
index e5b0e6c..a7cee8e 100644
--- a/egenerator/utils/spherical_opt.py
+++ b/egenerator/utils/spherical_opt.py
@@ -358,7 +358,7 @@ def spherical_opt(
     # first thing, pack the points into separate cartesian and spherical coordinates
     fvals = np.array(vec_func(initial_points), dtype=float)
 
-    s_cart = initial_points[:, all_cartesian_indices]
+    s_cart = np.array(initial_points[:, all_cartesian_indices], dtype=float)
     #print(s_cart)
     s_spher = np.zeros(shape=(n_points, n_spher), dtype=SPHER_T)
     s_spher['az'] = initial_points[:, all_azimuth_indices]
-- 
2.43.0


From 6dc089990c2af9d207313b5dc90b1f71527b5975 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 46/89] fix: learning rate schedules of a single interval
 failed at the first step

---
 egenerator/utils/learning_rate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/egenerator/utils/learning_rate.py b/egenerator/utils/learning_rate.py
index be4febd..4ae725b 100644
--- a/egenerator/utils/learning_rate.py
+++ b/egenerator/utils/learning_rate.py
@@ -64,6 +64,10 @@ class MultiLearningRateScheduler(tf.optimizers.schedules.LearningRateSchedule):
         step = tf.convert_to_tensor(step)
         boundaries = tf.cast(self.boundaries, step.dtype)
 
+        # there is nothing to choose from if there is only one scheduler
+        if len(self.schedulers) == 1:
+            return self.schedulers[0](step)
+
         # create a list of (boolean, callable) pairs
         pred_fn_pairs = []
 
-- 
2.43.0


From 5b2aac0073605f8a125f3cb331a6d7d6791ffb96 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 47/89] fix: config files without any entry could not be loaded

---
 egenerator/settings/setup_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/settings/setup_manager.py b/egenerator/settings/setup_manager.py
index b9088ae..f14d8a9 100644
--- a/egenerator/settings/setup_manager.py
+++ b/egenerator/settings/setup_manager.py
@@ -89,7 +89,7 @@ class SetupManager:
             # config_update = yaml.round_trip_load(open(config_file),
             #                                      preserve_quotes=True)
             yaml_loader = yaml.YAML(typ='safe')
-            config_update = yaml_loader.load(open(config_file))
+            config_update = yaml_loader.load(open(config_file)) or {}
             # config_update = yaml.load(open(config_file), loader=yaml.Loader())
             duplicates = set(new_config.keys()).intersection(
                                                     set(config_update.keys()))
-- 
2.43.0


From 0f5f77b5873bda3e923ae9eb473476908dc8a333 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 48/89] fix: references to settings that refer to other ones
 were not replaced

---
 egenerator/settings/setup_manager.py | 33 +++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/egenerator/settings/setup_manager.py b/egenerator/settings/setup_manager.py
index f14d8a9..5af8a97 100644
--- a/egenerator/settings/setup_manager.py
+++ b/egenerator/settings/setup_manager.py
@@ -1,6 +1,7 @@
 from __future__ import division, print_function
 import os
 import logging
+import string
 import numpy as np
 from copy import deepcopy
 import tensorflow as tf
@@ -10,6 +11,29 @@ from egenerator import misc
 from egenerator.settings import version_control
 
 
+class _Definitions(dict):
+    """Definitions of strings, which may refer to each other in any order."""
+
+    def __init__(self, definitions, root=None, path=(), parents=()):
+        super(_Definitions, self).__init__(definitions)
+        self.root = self if root is None else root
+        self.path = path
+        self.parents = parents
+
+    def __getitem__(self, key):
+        value = super(_Definitions, self).__getitem__(key)
+        path = self.path + (key,)
+        if isinstance(value, str):
+            if path in self.parents:
+                raise ValueError(
+                    'Settings refer to each other: {!r}'.format(self.parents))
+            value = string.Formatter().vformat(value, (), _Definitions(
+                self.root, parents=self.parents + (path,)))
+        elif isinstance(value, dict):
+            value = _Definitions(value, self.root, path, self.parents)
+        return value
+
+
 class SetupManager:
     """Setup Manager for Event-Generator project
 
@@ -144,12 +168,15 @@ class SetupManager:
         dict
             The dictionary with expanded strings.
         """
+        expanded = {}
         for key, value in config.items():
             if isinstance(value, str):
-                config[key] = value.format(**expand_config)
+                value = string.Formatter().vformat(
+                    value, (), _Definitions(expand_config))
             elif isinstance(value, dict):
-                config[key] = self.expand_strings(value, expand_config)
-        return config
+                value = self.expand_strings(value, expand_config)
+            expanded[key] = value
+        return expanded
 
     def get_config(self):
         """Returns config
-- 
2.43.0


From e3f3e03d53924d0f25134389df4ccebb1b2a48c0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 49/89] fix: pulses that are skipped were loaded with arbitrary
 values

---
 egenerator/data/modules/data/pulse_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 603fab4..d3b8f76 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -292,6 +292,7 @@ class PulseDataModule(BaseComponent):
         x_pulses = np.empty((num_pulses, pulse_dim),
                             dtype=self.data['np_float_precision'])
         x_pulses_ids = np.empty((num_pulses, 3), dtype=np.int32)
+        use_pulse = np.ones(num_pulses, dtype=bool)
 
         # create array for time data
         x_time_window = np.empty(
@@ -308,6 +309,7 @@ class PulseDataModule(BaseComponent):
             if dom > 60:
                 self._logger.warning(
                     'skipping pulse: {} {}'.format(string, dom))
+                use_pulse[pulse_index] = False
                 continue
             index = event_dict[(row[1:5])]
 
@@ -335,6 +337,10 @@ class PulseDataModule(BaseComponent):
             if row[10] < x_time_window[index, 0]:
                 x_time_window[index, 0] = row[10]
 
+        # remove entries of skipped pulses
+        x_pulses = x_pulses[use_pulse]
+        x_pulses_ids = x_pulses_ids[use_pulse]
+
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
 
-- 
2.43.0


From c9c2aab3fc4101d14ce496ec1dec92ce5264fbc8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 50/89] fix: time windows that are skipped were loaded with
 arbitrary values

---
 egenerator/data/modules/data/pulse_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index d3b8f76..8f5dab8 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -277,6 +277,7 @@ class PulseDataModule(BaseComponent):
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
+            use_tw = np.ones(num_tws, dtype=bool)
         else:
             x_time_exclusions = None
             x_time_exclusions_ids = None
@@ -367,6 +368,7 @@ class PulseDataModule(BaseComponent):
                 if dom > 60:
                     self._logger.warning(
                         'skipping tw: {} {}'.format(string, dom))
+                    use_tw[tw_index] = False
                     continue
                 index = event_dict[(row[1:5])]
 
@@ -378,6 +380,10 @@ class PulseDataModule(BaseComponent):
                 # gather pulse ids (batch index, string, dom)
                 x_time_exclusions_ids[tw_index] = [index, string-1, dom-1]
 
+            # remove entries of skipped time windows
+            x_time_exclusions = x_time_exclusions[use_tw]
+            x_time_exclusions_ids = x_time_exclusions_ids[use_tw]
+
         # ------------------
         # get dom exclusions
         # ------------------
-- 
2.43.0


From 2ec8c7fe98444007a40820333112d3bbfe3a1256 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 51/89] fix: files without any time exclusions could not be
 loaded

---
 egenerator/data/modules/data/pulse_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 8f5dab8..b05fbdd 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -273,7 +273,10 @@ class PulseDataModule(BaseComponent):
             x_dom_exclusions = None
 
         if self.data['time_exclusions_exist']:
-            num_tws = len(time_exclusions['Event'])
+            if time_exclusions is None:
+                num_tws = 0
+            else:
+                num_tws = len(time_exclusions['Event'])
             x_time_exclusions = np.empty(
                 (num_tws, 2), dtype=self.data['np_float_precision'])
             x_time_exclusions_ids = np.empty((num_tws, 3), dtype=np.int32)
-- 
2.43.0


From c3e5ffe71aac15d9599110c68d80dd5c16193cbb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 52/89] fix: frames without any time exclusions could not be
 loaded

---
 egenerator/data/modules/data/pulse_data.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index b05fbdd..69e4efa 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -605,15 +605,12 @@ class PulseDataModule(BaseComponent):
                     # gather pulse ids (batch index, string, dom)
                     x_time_exclusions_ids.append([index, string-1, dom-1])
 
-            if x_time_exclusions:
-                x_time_exclusions = np.array(
-                    x_time_exclusions, dtype=self.data['np_float_precision'])
-                x_time_exclusions_ids = np.array(
-                    x_time_exclusions_ids, dtype=np.int32)
-            else:
-                x_time_exclusions = np.empty(
-                    (0, 2), dtype=self.data['np_float_precision'])
-                x_time_exclusions_ids = np.empty((0, 3), dtype=np.int32)
+        if self.data['time_exclusions_exist']:
+            x_time_exclusions = np.array(
+                x_time_exclusions,
+                dtype=self.data['np_float_precision']).reshape((-1, 2))
+            x_time_exclusions_ids = np.array(
+                x_time_exclusions_ids, dtype=np.int32).reshape((-1, 3))
 
         # ------------------
         # get dom exclusions
-- 
2.43.0


From 4845a0039432f722a78ce2e9c4120919c356318e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 53/89] fix: frames without pulses could not be loaded

---
 egenerator/data/modules/data/pulse_data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index 69e4efa..f0f8dcc 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -563,8 +563,11 @@ class PulseDataModule(BaseComponent):
                 if pulse.time < x_time_window[index, 0]:
                     x_time_window[index, 0] = pulse.time
 
-        x_pulses = np.array(x_pulses, dtype=self.data['np_float_precision'])
-        x_pulses_ids = np.array(x_pulses_ids, dtype=np.int32)
+        x_pulses = np.array(
+            x_pulses, dtype=self.data['np_float_precision']).reshape(
+                (-1, 3 if add_charge_quantiles else 2))
+        x_pulses_ids = np.array(
+            x_pulses_ids, dtype=np.int32).reshape((-1, 3))
 
         # convert cumulative charge to fraction of total charge, e.g. quantile
         if add_charge_quantiles:
-- 
2.43.0


From 40e5cbb75b132b3752cd77516c294d081cd30b4f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 54/89] fix: pulses on bad DOMs were kept if no further DOMs
 are excluded

---
 egenerator/data/modules/data/pulse_data.py | 54 +++++++++++-----------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/egenerator/data/modules/data/pulse_data.py b/egenerator/data/modules/data/pulse_data.py
index f0f8dcc..5e16155 100644
--- a/egenerator/data/modules/data/pulse_data.py
+++ b/egenerator/data/modules/data/pulse_data.py
@@ -401,22 +401,23 @@ class PulseDataModule(BaseComponent):
                 index = event_dict[(row[1:5])]
                 x_dom_exclusions[index, string-1, dom-1, 0] = False
 
-            if self.configuration.config['discard_pulses_from_excluded_doms']:
+        if x_dom_exclusions is not None and \
+                self.configuration.config['discard_pulses_from_excluded_doms']:
 
-                # compute flat indices
-                dim1 = x_dom_exclusions.shape[1]
-                dim2 = x_dom_exclusions.shape[2]
-                flat_indices = (x_pulses_ids[:, 0]*dim1*dim2 +  # event
-                                x_pulses_ids[:, 1]*dim2 +  # string
-                                x_pulses_ids[:, 2])  # DOM
+            # compute flat indices
+            dim1 = x_dom_exclusions.shape[1]
+            dim2 = x_dom_exclusions.shape[2]
+            flat_indices = (x_pulses_ids[:, 0]*dim1*dim2 +  # event
+                            x_pulses_ids[:, 1]*dim2 +  # string
+                            x_pulses_ids[:, 2])  # DOM
 
-                # flatten dom charges
-                flat_exclusions = x_dom_exclusions.flatten()
+            # flatten dom charges
+            flat_exclusions = x_dom_exclusions.flatten()
 
-                # discard pulses coming from excluded DOMs
-                mask = flat_exclusions[flat_indices]
-                x_pulses = x_pulses[mask]
-                x_pulses_ids = x_pulses_ids[mask]
+            # discard pulses coming from excluded DOMs
+            mask = flat_exclusions[flat_indices]
+            x_pulses = x_pulses[mask]
+            x_pulses_ids = x_pulses_ids[mask]
 
         # put everything together and make sure the order is correct
         data_dict = {
@@ -631,22 +632,23 @@ class PulseDataModule(BaseComponent):
                 index = 0
                 x_dom_exclusions[index, string-1, dom-1, 0] = False
 
-            if self.configuration.config['discard_pulses_from_excluded_doms']:
+        if x_dom_exclusions is not None and \
+                self.configuration.config['discard_pulses_from_excluded_doms']:
 
-                # compute flat indices
-                dim1 = x_dom_exclusions.shape[1]
-                dim2 = x_dom_exclusions.shape[2]
-                flat_indices = (x_pulses_ids[:, 0]*dim1*dim2 +  # event
-                                x_pulses_ids[:, 1]*dim2 +  # string
-                                x_pulses_ids[:, 2])  # DOM
+            # compute flat indices
+            dim1 = x_dom_exclusions.shape[1]
+            dim2 = x_dom_exclusions.shape[2]
+            flat_indices = (x_pulses_ids[:, 0]*dim1*dim2 +  # event
+                            x_pulses_ids[:, 1]*dim2 +  # string
+                            x_pulses_ids[:, 2])  # DOM
 
-                # flatten dom charges
-                flat_exclusions = x_dom_exclusions.flatten()
+            # flatten dom charges
+            flat_exclusions = x_dom_exclusions.flatten()
 
-                # discard pulses coming from excluded DOMs
-                mask = flat_exclusions[flat_indices]
-                x_pulses = x_pulses[mask]
-                x_pulses_ids = x_pulses_ids[mask]
+            # discard pulses coming from excluded DOMs
+            mask = flat_exclusions[flat_indices]
+            x_pulses = x_pulses[mask]
+            x_pulses_ids = x_pulses_ids[mask]
 
         # put everything together and make sure the order is correct
         data_dict = {
-- 
2.43.0


From 67684d7049fab202e0128ffb87355f433db5d9b9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 55/89] fix: constraints of filters on columns failed for
 frames

---
 egenerator/data/modules/filters/general_filter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index 80929d1..754a158 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -184,10 +184,11 @@ class GeneralFilterModule(BaseComponent):
                 values = np.atleast_1d(frame[key][column])
             else:
                 value_table = frame[key]
-                if key in value_table:
-                    values = np.atleast_1d(value_table[key])
+                if hasattr(value_table, '__contains__') and \
+                        column in value_table:
+                    values = np.atleast_1d(value_table[column])
                 else:
-                    values = np.atleast_1d(getattr(value_table, key))
+                    values = np.atleast_1d(getattr(value_table, column))
 
             if op == '>':
                 constraint_mask = values > threshold
-- 
2.43.0


From dbf61696cf8a859b58999fc1f72ff7096608e6bd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 56/89] fix: events without an entry of a vector were filtered
 by that of another event

---
 egenerator/data/modules/filters/general_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/data/modules/filters/general_filter.py b/egenerator/data/modules/filters/general_filter.py
index 754a158..3b6a3d6 100644
--- a/egenerator/data/modules/filters/general_filter.py
+++ b/egenerator/data/modules/filters/general_filter.py
@@ -132,6 +132,11 @@ class GeneralFilterModule(BaseComponent):
                 with pd.HDFStore(file, 'r') as f:
                     values = f[key][column]
 
+            if len(values) != num_events:
+                raise ValueError(
+                    'Found {} values of {!r} in {!r} for {} events'.format(
+                        len(values), column, key, num_events))
+
             if op == '>':
                 constraint_mask = values > threshold
             elif op == '>=':
-- 
2.43.0


From 1859ae7ffcc2c0a781cf3ea4350e3cbece58d05b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 57/89] fix: only a single seed could be loaded from files

---
 egenerator/data/modules/misc/seed_loader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 7bbfb13..6e2ee82 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -146,9 +146,6 @@ class SeedLoaderMiscModule(BaseComponent):
         if not self.is_configured:
             raise ValueError('Module not configured yet!')
 
-        # open file
-        f = pd.HDFStore(file, 'r')
-
         seeds = []
         num_events_list = []
         missing_value = self.configuration.config['missing_value']
@@ -156,6 +153,9 @@ class SeedLoaderMiscModule(BaseComponent):
         for tensor in self.data['misc_tensors'].list:
             seed_name = tensor.name
 
+            # open file
+            f = pd.HDFStore(file, 'r')
+
             seed_parameters = []
             try:
                 _labels = f[seed_name]
-- 
2.43.0


From 51d7f725859deb33cc0ff0a235c5cfb49a7b5daa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 58/89] fix: missing values of the first parameter of seeds
 were not filled in

---
 egenerator/data/modules/misc/seed_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/data/modules/misc/seed_loader.py b/egenerator/data/modules/misc/seed_loader.py
index 6e2ee82..3e0bdc9 100644
--- a/egenerator/data/modules/misc/seed_loader.py
+++ b/egenerator/data/modules/misc/seed_loader.py
@@ -163,11 +163,11 @@ class SeedLoaderMiscModule(BaseComponent):
                     if l in _labels:
                         seed_parameters.append(_labels[l].values)
                     elif l in missing_value_dict:
-                        num_events = len(seed_parameters[-1])
+                        num_events = len(_labels)
                         seed_parameters.append(
                             [missing_value_dict[l]]*num_events)
                     elif missing_value is not None:
-                        num_events = len(seed_parameters[-1])
+                        num_events = len(_labels)
                         seed_parameters.append([missing_value]*num_events)
                     else:
                         raise KeyError('Could not find key {!r}'.format(l))
-- 
2.43.0


From f3f7846ad276b7bbc462d0e5c5bdb3267896e917 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 59/89] fix: the label module of muons could not be configured

---
 egenerator/data/modules/labels/muons.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/egenerator/data/modules/labels/muons.py b/egenerator/data/modules/labels/muons.py
index 37281e8..6b6fcda 100644
--- a/egenerator/data/modules/labels/muons.py
+++ b/egenerator/data/modules/labels/muons.py
@@ -94,11 +94,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
             Description
         """
 
-        # sanity checks:
-        if not isinstance(shift_cascade_vertex, bool):
-            raise TypeError('{!r} is not a boolean value!'.format(
-                shift_cascade_vertex))
-
         data = {}
         data['label_tensors'] = DataTensorList([DataTensor(
                                         name='x_parameters',
@@ -116,7 +111,6 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         configuration = Configuration(
             class_string=misc.get_full_class_string_of_object(self),
             settings=dict(config_data=config_data,
-                          shift_cascade_vertex=shift_cascade_vertex,
                           trafo_log=trafo_log,
                           float_precision=float_precision,
                           num_cascades=num_cascades,
-- 
2.43.0


From e0d8d2367d37d03b76de1f3659e7452a42638119 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 60/89] fix: labels with snowstorm parameters could not be
 configured without logarithms

---
 egenerator/data/modules/labels/snowstorm_cascades.py      | 4 ++--
 egenerator/data/modules/labels/snowstorm_track_segment.py | 4 ++--
 egenerator/data/modules/labels/snowstorm_tracks.py        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/egenerator/data/modules/labels/snowstorm_cascades.py b/egenerator/data/modules/labels/snowstorm_cascades.py
index f128f08..c837495 100644
--- a/egenerator/data/modules/labels/snowstorm_cascades.py
+++ b/egenerator/data/modules/labels/snowstorm_cascades.py
@@ -112,8 +112,8 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
                 shift_cascade_vertex))
 
         # extend trafo log for snowstorm parameters: fill with Flase
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * 7
+        if trafo_log is None or isinstance(trafo_log, bool):
+            trafo_log_ext = [bool(trafo_log)] * 7
         else:
             trafo_log_ext = list(trafo_log)
         trafo_log_ext.extend([False]*num_snowstorm_params)
diff --git a/egenerator/data/modules/labels/snowstorm_track_segment.py b/egenerator/data/modules/labels/snowstorm_track_segment.py
index 1b8b6be..5c21057 100644
--- a/egenerator/data/modules/labels/snowstorm_track_segment.py
+++ b/egenerator/data/modules/labels/snowstorm_track_segment.py
@@ -108,8 +108,8 @@ class SnowstormTrackSegmentGeneratorLabelModule(BaseComponent):
         # define number of parameters
         num_params = 9
 
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * num_params
+        if trafo_log is None or isinstance(trafo_log, bool):
+            trafo_log_ext = [bool(trafo_log)] * num_params
         else:
             trafo_log_ext = list(trafo_log)
         trafo_log_ext.extend([False]*num_snowstorm_params)
diff --git a/egenerator/data/modules/labels/snowstorm_tracks.py b/egenerator/data/modules/labels/snowstorm_tracks.py
index f482079..801c10f 100644
--- a/egenerator/data/modules/labels/snowstorm_tracks.py
+++ b/egenerator/data/modules/labels/snowstorm_tracks.py
@@ -149,8 +149,8 @@ class SnowstormTrackGeneratorLabelModule(BaseComponent):
             parameter_dict[parameter_name] = i
 
         # extend trafo log for snowstorm parameters: fill with Flase
-        if isinstance(trafo_log, bool):
-            trafo_log_ext = [trafo_log] * num_params
+        if trafo_log is None or isinstance(trafo_log, bool):
+            trafo_log_ext = [bool(trafo_log)] * num_params
         else:
             trafo_log_ext = list(trafo_log)
         trafo_log_ext.extend([False]*num_snowstorm_params)
-- 
2.43.0


From 3d56084db28b89212860d400d7ff91ec9d9c19fe Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 61/89] fix: logarithms of additional labels were not
 configured

---
 .../data/modules/labels/snowstorm_cascades.py      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/egenerator/data/modules/labels/snowstorm_cascades.py b/egenerator/data/modules/labels/snowstorm_cascades.py
index c837495..1f188ec 100644
--- a/egenerator/data/modules/labels/snowstorm_cascades.py
+++ b/egenerator/data/modules/labels/snowstorm_cascades.py
@@ -111,13 +111,6 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
             raise TypeError('{!r} is not a boolean value!'.format(
                 shift_cascade_vertex))
 
-        # extend trafo log for snowstorm parameters: fill with Flase
-        if trafo_log is None or isinstance(trafo_log, bool):
-            trafo_log_ext = [bool(trafo_log)] * 7
-        else:
-            trafo_log_ext = list(trafo_log)
-        trafo_log_ext.extend([False]*num_snowstorm_params)
-
         # create a list of label names to load
         if additional_labels is None:
             additional_labels = []
@@ -126,6 +119,13 @@ class SnowstormCascadeGeneratorLabelModule(BaseComponent):
             'cascade_azimuth', 'cascade_energy', 'cascade_t',
         ] + additional_labels
 
+        # extend trafo log for snowstorm parameters: fill with Flase
+        if trafo_log is None or isinstance(trafo_log, bool):
+            trafo_log_ext = [bool(trafo_log)] * len(label_names)
+        else:
+            trafo_log_ext = list(trafo_log)
+        trafo_log_ext.extend([False]*num_snowstorm_params)
+
         data = {'label_names': label_names}
         data['label_tensors'] = DataTensorList([DataTensor(
             name='x_parameters',
-- 
2.43.0


From 48a80a174ef84d7632cb7b4b4357834a837d8324 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 62/89] fix: events with boolean tensors could not be loaded
 with recent numpy versions

---
 egenerator/data/handler/base.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/egenerator/data/handler/base.py b/egenerator/data/handler/base.py
index a99ca08..72693e3 100644
--- a/egenerator/data/handler/base.py
+++ b/egenerator/data/handler/base.py
@@ -337,7 +337,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(data[i])
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
 
         return num_events, tuple(data_tensors)
 
@@ -384,7 +384,7 @@ class BaseDataHandler(BaseComponent):
             if tensor.exists:
                 data_tensors.append(tf.convert_to_tensor(data[i]))
             else:
-                data_tensors.append(getattr(np, tensor.dtype)())
+                data_tensors.append(np.dtype(tensor.dtype).type())
         return tuple(data_tensors)
 
     def _get_data_from_frame(self, frame, *args, **kwargs):
@@ -960,7 +960,7 @@ class BaseDataHandler(BaseComponent):
                                     indices[:, 0] = size
                                     batch[i].append(indices)
                             else:
-                                batch[i].append(getattr(np, tensor.dtype)())
+                                batch[i].append(np.dtype(tensor.dtype).type())
                                 # batch[i].append(None)
                         size += 1
 
@@ -973,16 +973,16 @@ class BaseDataHandler(BaseComponent):
                                     if tensor.vector_info is None:
                                         batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=np.dtype(tensor.dtype))
 
                                     else:
                                         batch[i] = np.concatenate(
                                                 batch[i], axis=0).astype(
-                                                    getattr(np, tensor.dtype))
+                                                    np.dtype(tensor.dtype))
                                 else:
                                     batch[i] = np.asarray(
                                             batch[i],
-                                            dtype=getattr(np, tensor.dtype))
+                                            dtype=np.dtype(tensor.dtype))
 
                             if verbose:
                                 usage = resource.getrusage(
@@ -1005,7 +1005,7 @@ class BaseDataHandler(BaseComponent):
             if size > 0:
                 # create numpy arrays from input tensors
                 for i, tensor in enumerate(self.tensors.list):
-                    dtype = getattr(np, tensor.dtype)
+                    dtype = np.dtype(tensor.dtype)
                     if exists[i] and tensor.vector_info is not None:
                         batch[i] = np.concatenate(
                             batch[i], axis=0).astype(dtype)
-- 
2.43.0


From 1a9e991594a6c852a19a7df5a70e647591348ac4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:14:46 +0000
Subject: [PATCH 63/89] fix: the label module of muons could not be created

---
 egenerator/data/modules/labels/muons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/data/modules/labels/muons.py b/egenerator/data/modules/labels/muons.py
index 6b6fcda..ab4fcec 100644
--- a/egenerator/data/modules/labels/muons.py
+++ b/egenerator/data/modules/labels/muons.py
@@ -27,7 +27,7 @@ class DummyMuonFixedCascadesLabelModule(BaseComponent):
         """
 
         logger = logger or logging.getLogger(__name__)
-        super(CascadeGeneratorLabelModule, self).__init__(logger=logger)
+        super(DummyMuonFixedCascadesLabelModule, self).__init__(logger=logger)
 
     def _configure(self, config_data, trafo_log, float_precision, num_cascades,
                    label_key='LabelsDeepLearning'):
-- 
2.43.0


From 1ed58d0b74f43e6e1ac2e66c723d7e2de541c78b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:37:50 +0000
Subject: [PATCH 64/89] fix: specs of tensors named 'type' or 'specs' were lost
 or misread

---
 egenerator/data/tensor.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/egenerator/data/tensor.py b/egenerator/data/tensor.py
index 853953d..5b99fdc 100644
--- a/egenerator/data/tensor.py
+++ b/egenerator/data/tensor.py
@@ -301,13 +301,12 @@ class DataTensorList(object):
         for serialized_tensor in serialized_tensor_list:
 
             # rename type to tensor_type and expand specs
-            serialized_tensor['tensor_type'] = serialized_tensor['type']
-            for key, value in serialized_tensor['specs'].items():
+            # Note: specs may be named 'type' or 'specs' as well
+            serialized_tensor['tensor_type'] = serialized_tensor.pop('type')
+            specs = serialized_tensor.pop('specs')
+            for key, value in specs.items():
                 serialized_tensor[key] = value
 
-            del serialized_tensor['type']
-            del serialized_tensor['specs']
-
             # create data tensor object
             tensors.append(DataTensor(**serialized_tensor))
 
-- 
2.43.0


From 9e1789af516c7c4a4dab7af0a260da1ad20816b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 65/89] fix: the evaluation module received training data
 instead of validation data

---
 egenerator/manager/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 9807c80..4e36c9c 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -828,7 +828,7 @@ class BaseModelManager(Model):
                 if evaluation_module is not None:
 
                     # get new batch of validation data
-                    val_data_batch = next(train_dataset)
+                    val_data_batch = next(validation_dataset)
 
                     evaluation_module.evaluate(
                         data_batch=val_data_batch,
-- 
2.43.0


From a4d4dcb8ae5747d484bfd25b0ce43454a94ea201 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 66/89] fix: undefined values in gradients could not be removed

---
 egenerator/manager/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 4e36c9c..ce44b09 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -580,8 +580,12 @@ class BaseModelManager(Model):
         else:
             remove_nan_gradients = False
         if remove_nan_gradients:
-            gradients = [tf.where(tf.is_nan(grad), tf.zeros_like(grad), grad)
-                         for grad in gradients if grad is not None]
+            # Note: the order of gradients must match the one of the variables,
+            # therefore missing gradients may not be removed
+            gradients = [None if grad is None else
+                         tf.where(tf.math.is_nan(grad),
+                                  tf.zeros_like(grad), grad)
+                         for grad in gradients]
 
         if 'clip_gradients_value' in opt_config:
             clip_gradients_value = opt_config['clip_gradients_value']
-- 
2.43.0


From 6c18359ca579df6459a08a45448c59d6378090e9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 67/89] fix: models with weights that do not contribute to the
 loss could not be trained

---
 egenerator/manager/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index ce44b09..7533edf 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -600,6 +600,11 @@ class BaseModelManager(Model):
         # Ensure finite values
         asserts = []
         for gradient in capped_gradients:
+
+            # variables that do not contribute to the loss have no gradient
+            if gradient is None:
+                continue
+
             assert_finite = tf.Assert(
                 tf.math.is_finite(tf.reduce_mean(gradient)),
                 [tf.reduce_min(gradient),
-- 
2.43.0


From 48de86f411f1566df3c286ebe94272770fb77d67 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 68/89] fix: the strength of regularizations was ignored

---
 egenerator/manager/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index 7533edf..a823867 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -448,10 +448,12 @@ class BaseModelManager(Model):
 
         # apply regularization
         if opt_config['l1_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(tf.abs(v)) for v in variables])
+            reg_loss += opt_config['l1_regularization'] * tf.add_n(
+                [tf.reduce_sum(tf.abs(v)) for v in variables])
 
         if opt_config['l2_regularization'] > 0.:
-            reg_loss += tf.add_n([tf.reduce_sum(v**2) for v in variables])
+            reg_loss += opt_config['l2_regularization'] * tf.add_n(
+                [tf.reduce_sum(v**2) for v in variables])
 
         return reg_loss
 
-- 
2.43.0


From a5c7292fc01ca34dd4433244a7bfbc325141eaa7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 69/89] fix: recorded number of training steps

---
 egenerator/manager/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index a823867..fe4bce8 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -856,7 +856,7 @@ class BaseModelManager(Model):
             # ----------
             if step % opt_config['save_frequency'] == 0 and step != 0:
                 self.save_weights(dir_path=save_dir,
-                                  num_training_steps=step)
+                                  num_training_steps=step + 1)
 
             # -----------------------
             # Profile steps 90 to 100
@@ -871,6 +871,6 @@ class BaseModelManager(Model):
 
         # save model
         self.save_weights(dir_path=save_dir,
-                          num_training_steps=step,
+                          num_training_steps=num_training_iterations,
                           description='End of training step',
                           protected=True)
-- 
2.43.0


From dc0c88feca926ccb090f9756bee9a4a80d58498c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 70/89] fix: managers could not be trained again

---
 egenerator/manager/base.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/base.py b/egenerator/manager/base.py
index fe4bce8..4202dd0 100644
--- a/egenerator/manager/base.py
+++ b/egenerator/manager/base.py
@@ -538,6 +538,7 @@ class BaseModelManager(Model):
     @tf.function
     def perform_training_step(self, data_batch, loss_module, opt_config,
                               parameter_tensor_name='x_parameters',
+                              optimizer=None,
                               **kwargs):
         """Perform one training step
 
@@ -554,6 +555,9 @@ class BaseModelManager(Model):
             The optimization config defining the settings.
         parameter_tensor_name : str, optional
             The name of the parameter tensor to use. Default: 'x_parameters'
+        optimizer : tf.optimizers.Optimizer, optional
+            The optimizer to use. If None, the optimizer of the most recent
+            training is used.
         **kwargs
             Arbitrary keyword arguments. These will be passed on to
             the get_loss function of the loss module.
@@ -563,6 +567,9 @@ class BaseModelManager(Model):
         tf.Tensor
             The scalar loss.
         """
+        if optimizer is None:
+            optimizer = self.optimizer
+
         with tf.GradientTape() as tape:
             combined_loss = self.get_loss(
                 data_batch, loss_module, opt_config,
@@ -614,7 +621,7 @@ class BaseModelManager(Model):
                  tf.reduce_max(gradient)])
             asserts.append(assert_finite)
         with tf.control_dependencies(asserts):
-            self.optimizer.apply_gradients(zip(capped_gradients, variables))
+            optimizer.apply_gradients(zip(capped_gradients, variables))
 
         return combined_loss
 
@@ -713,6 +720,15 @@ class BaseModelManager(Model):
             **optimizer_settings)
         self._untracked_data['optimizer'] = optimizer
 
+        # create the variables of the optimizer
+        # Note: these can not be created within tf.functions that were
+        # already called in a previous training
+        if hasattr(optimizer, 'build'):
+            variables = []
+            for model in self.models:
+                variables.extend(model.trainable_variables)
+            optimizer.build(variables)
+
         # save new training step to model
         training_components = {'loss_module': loss_module}
         if evaluation_module is not None:
@@ -747,6 +763,7 @@ class BaseModelManager(Model):
             input_signature=(train_dataset.element_spec,),
             loss_module=loss_module,
             opt_config=opt_config,
+            optimizer=optimizer,
             **opt_config['additional_loss_module_kwargs']
         )
 
-- 
2.43.0


From 41f767e728b44611f3f9d88a402fd27e59f613c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 71/89] fix: evaluate the noise PDF in the time unit of the
 other sources

The cascade and track sources scale times by 1/1000 and evaluate their pulse
PDFs per microsecond, the noise source per nanosecond.  In a superposition of
both, the pulse PDFs are added up (weighted by charge), thus the contribution
of noise to the likelihood of a pulse was too small by a factor of 1000, and
the combined PDF did not integrate to one.
---
 egenerator/model/source/noise/default.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/source/noise/default.py b/egenerator/model/source/noise/default.py
index d64b5b2..c00baa4 100644
--- a/egenerator/model/source/noise/default.py
+++ b/egenerator/model/source/noise/default.py
@@ -161,8 +161,12 @@ class DefaultNoiseModel(Source):
         # shape: [n_batch, 86, 60, 1]
         dom_charges = dom_noise_rates * livetime_exp
 
+        # scale time range down (as is done in all other sources), such that
+        # the PDFs of different sources may be combined.
+        t_scale = 0.001  # 1./ns
+
         # shape: [n_batch]
-        dom_pdf_constant = 1. / livetime
+        dom_pdf_constant = 1. / (livetime * t_scale)
 
         # ----------------------------
         # Apply time window exclusions
-- 
2.43.0


From 34aed853a7fb894278ae4f1c3a0f2fbc31498e55 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 72/89] fix: scale all components of the pulse PDF alike for
 time exclusions

The pulse PDF of the cascade source has to be conditioned on the time that
is not excluded, i.e. it must be divided by the share of the mixture outside
of the exclusion windows.  Instead, each component of the mixture was divided
by its own share, as if the expected charge of a component did not change when
most of it is excluded.  The predicted rate at a DOM (expected charge times
pulse PDF) thus changed outside of the windows: components that are excluded
for the most part were inflated, the other ones suppressed.  A superposition
of two sources and the same two as components of one mixture disagreed.
---
 egenerator/model/source/cascade/default.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/egenerator/model/source/cascade/default.py b/egenerator/model/source/cascade/default.py
index 25c55bd..78ab470 100644
--- a/egenerator/model/source/cascade/default.py
+++ b/egenerator/model/source/cascade/default.py
@@ -669,7 +669,12 @@ class DefaultCascadeModel(Source):
 
         # scale up pulse pdf by time exclusions if needed
         if time_exclusions_exist:
-            pulse_cdf_exclusion = tf.gather_nd(dom_cdf_exclusion, pulses_ids)
+            # Note: all components must be scaled by the same factor: the
+            # relative contributions of these outside of the exclusion
+            # windows do not change.
+            # [n_pulses, n_models] / [n_pulses, 1]
+            pulse_cdf_exclusion = tf.gather_nd(
+                dom_cdf_exclusion_sum, pulses_ids)
             pulse_latent_scale /= (1. - pulse_cdf_exclusion + 1e-3)
 
         # ensure shapes
-- 
2.43.0


From 9bd2fb4590c36ea30ae20611d8a5f8117e73ca8b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 73/89] fix: the simulation module never defined the parameter
 data type

Every call of DAQ failed with an AttributeError.
---
 egenerator/ic3/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 0ebde6b..2322c21 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -167,6 +167,8 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
 
         #     return result_tensors
         # ---- TO DELETE [END] -----------------
+        self.param_dtype = getattr(
+            tf, self.manager.data_trafo.data['tensors']['x_parameters'].dtype)
         self.get_model_tensors = self.manager.get_model_tensors_function()
 
         # ---------------------------------------------------
-- 
2.43.0


From 1c43db8765682fa92ad65145abdd3343888c9df5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 74/89] fix: default values from the frame failed in the
 simulation module

The frame was not available where these values are read (NameError).
---
 egenerator/ic3/simulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 2322c21..7f70f42 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -234,7 +234,7 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
             raise NotImplementedError('Tracks not yet supported')
 
         # convert cascade to source hypotheses
-        cascade_sources = self.convert_cascades_to_tensor(cascades)
+        cascade_sources = self.convert_cascades_to_tensor(cascades, frame)
 
         # timer after source collection
         t_1 = timeit.default_timer()
@@ -375,13 +375,16 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
 
         return pulse_series_map
 
-    def convert_cascades_to_tensor(self, cascades):
+    def convert_cascades_to_tensor(self, cascades, frame):
         """Convert a list of cascades to a source parameter tensor.
 
         Parameters
         ----------
         cascades : list of I3Particles
             The list of cascade I3Particles.
+        frame : I3Frame
+            The current frame from which default values are read, if these
+            are defined via frame keys.
 
         Returns
         -------
-- 
2.43.0


From 1958cb0823db45f30c15d45b75810718ba29c015 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 75/89] fix: events without any light source could not be
 simulated

The source models can not be evaluated for an empty list of sources.
The simulated pulse map of these events is empty.
---
 egenerator/ic3/simulation.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/egenerator/ic3/simulation.py b/egenerator/ic3/simulation.py
index 7f70f42..e646f80 100644
--- a/egenerator/ic3/simulation.py
+++ b/egenerator/ic3/simulation.py
@@ -239,14 +239,20 @@ class EventGeneratorSimulation(icetray.I3ConditionalModule):
         # timer after source collection
         t_1 = timeit.default_timer()
 
-        # get result tensors from model
-        result_tensors = self.get_model_tensors(cascade_sources)
+        if len(cascades) > 0:
+            # get result tensors from model
+            result_tensors = self.get_model_tensors(cascade_sources)
 
-        # timer after NN evaluation
-        t_2 = timeit.default_timer()
+            # timer after NN evaluation
+            t_2 = timeit.default_timer()
 
-        # sample pulses
-        pulses = self.sample_pulses(result_tensors, cascade_sources)
+            # sample pulses
+            pulses = self.sample_pulses(result_tensors, cascade_sources)
+
+        else:
+            # the model can not be evaluated without any sources
+            t_2 = timeit.default_timer()
+            pulses = dataclasses.I3RecoPulseSeriesMap()
 
         # timer after Sampling
         t_3 = timeit.default_timer()
-- 
2.43.0


From 40639c7c653b310c282cac0cb1e86ebbf800fa1d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 76/89] fix: model tensors of models with time exclusions were
 not available

The dummy data batch lacked the (empty) time exclusions (KeyError).
---
 egenerator/manager/source.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 960d082..b67d227 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -526,6 +526,8 @@ class SourceManager(BaseModelManager):
             data_batch_dict = {
                 'x_pulses': tf.ones([1, x_pulses_shape[1]], dtype=pulse_dtype),
                 'x_pulses_ids': tf.convert_to_tensor([[0, 0, 0]]),
+                'x_time_exclusions': tf.zeros([0, 2], dtype=pulse_dtype),
+                'x_time_exclusions_ids': tf.zeros([0, 3], dtype=tf.int32),
                 'x_dom_exclusions': tf.ones(
                     [len(parameters), 86, 60, 1], dtype=tf.bool),
                 'x_dom_charge': tf.ones(
-- 
2.43.0


From 4fb0eed347b2309fc10bee1427b0047d788e6a3c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 77/89] fix: light of dim sources was lost when sampling photo
 electrons

The constant added to the variance reduced the mean of the sampled
numbers for all DOMs with (var - mu) of the order of 1e-6 or below, e.g.
by a factor of ten for mu = 0.01 and alpha = 0.001.
---
 egenerator/utils/basis_functions.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/egenerator/utils/basis_functions.py b/egenerator/utils/basis_functions.py
index f06f2d5..d90a7e9 100644
--- a/egenerator/utils/basis_functions.py
+++ b/egenerator/utils/basis_functions.py
@@ -442,14 +442,15 @@ def sample_from_negative_binomial(rng, mu, alpha_or_var, param_is_alpha,
     array_like
         The sampled points from the negative binomial distribution.
     """
-    eps = 1e-6
-    if param_is_alpha:
-        var = mu + alpha_or_var*mu**2
-    else:
-        var = alpha_or_var
-    p = 1 - (var - mu) / var
-    r = (mu**2) / (var - mu + eps)
-    return rng.negative_binomial(r, p, size=size)
+    mu = np.asarray(mu, dtype=float)
+    alpha = np.asarray(alpha_or_var, dtype=float)
+    if not param_is_alpha:
+        alpha = (alpha - mu) / np.maximum(mu, 1e-30)**2
+
+    # avoid numerical issues in the Poissonian limit
+    alpha = np.maximum(alpha, 1e-6)
+    p = 1. / (1. + alpha*mu)
+    return rng.negative_binomial(1. / alpha, p, size=size)
 
 
 def tf_rayleigh(x, sigma):
-- 
2.43.0


From 661b6204a7ec363b709bee9607d1a5c707edd04e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 78/89] fix: goodness of fit used the charges of the data for
 simulated events

The pulses were replaced by the simulated ones, but the total charges at
the DOMs, which enter the charge likelihood, were those of the data.
---
 egenerator/manager/reconstruction/modules/fit_quality.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index b509119..b088977 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -321,6 +321,9 @@ class GoodnessOfFit:
             data_batch_new = [t for t in data_batch]
             data_batch_new[self.x_pulses_index] = x_pulses
             data_batch_new[self.x_pulses_ids_index] = x_pulses_ids
+            data_batch_new[self.x_dom_charge_index] = np.expand_dims(
+                dom_charges[event_id], axis=0).astype(np.asarray(
+                    data_batch[self.x_dom_charge_index]).dtype)
             data_batch_new = tuple(data_batch_new)
             tf_seed_tensor = tf.convert_to_tensor(
                 np.expand_dims(sampled_hypotheses[event_id], axis=0),
-- 
2.43.0


From e7d824ce66bdf8d6f54275f22459a27b4faa30a3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 79/89] fix: goodness of fit failed if a simulated event had no
 pulses

---
 egenerator/manager/reconstruction/modules/fit_quality.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index b088977..4fcf603 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -633,6 +633,11 @@ class GoodnessOfFit:
                 x_pulses.append(pulses)
                 x_pulses_ids.append(pulses_ids)
 
+        if len(x_pulses) == 0:
+            # there are no pulses in this event
+            return (np.zeros([0, 3 if add_charge_quantiles else 2]),
+                    np.zeros([0, 3], dtype=int))
+
         x_pulses = np.concatenate(x_pulses)
         x_pulses_ids = np.concatenate(x_pulses_ids)
 
-- 
2.43.0


From 0552736767f6c1c86bd0482fb13ef8d657b38661 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 80/89] fix: goodness of fit failed unless all parameters are
 fitted

The results of the samples consist of the fitted parameters only.
---
 egenerator/manager/reconstruction/modules/fit_quality.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/egenerator/manager/reconstruction/modules/fit_quality.py b/egenerator/manager/reconstruction/modules/fit_quality.py
index 4fcf603..90c7374 100644
--- a/egenerator/manager/reconstruction/modules/fit_quality.py
+++ b/egenerator/manager/reconstruction/modules/fit_quality.py
@@ -284,7 +284,9 @@ class GoodnessOfFit:
         # ---------------------------------
 
         # create empty arrays to store results
-        sample_recos_trafo = np.empty_like(sampled_hypotheses)
+        fit_mask = np.broadcast_to(
+            self.fit_paramater_list, sampled_hypotheses.shape[1])
+        sample_recos_trafo = np.empty([self.num_samples, np.sum(fit_mask)])
         sample_event_llh = np.empty(self.num_samples)
         if self.add_per_dom_calculation:
             sample_dom_llh = np.empty([self.num_samples, 86, 60])
@@ -345,6 +347,10 @@ class GoodnessOfFit:
                 else:
                     sample_result_trafo = tf_seed_tensor.numpy()
 
+                # the loss function only expects the fitted parameters
+                sample_result_trafo = np.asarray(
+                    sample_result_trafo)[:, fit_mask]
+
             assert len(sample_result_trafo) == 1
             sample_recos_trafo[event_id] = sample_result_trafo[0]
             t_3 = timeit.default_timer()
-- 
2.43.0


From f9b5c543752bd7d81262392e6a0b78a4fd82bef7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 81/89] fix: circularized uncertainty could be negative or miss
 the minimum

---
 .../reconstruction/modules/opening_angle.py   | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/opening_angle.py b/egenerator/manager/reconstruction/modules/opening_angle.py
index bef93ff..2c5d42c 100644
--- a/egenerator/manager/reconstruction/modules/opening_angle.py
+++ b/egenerator/manager/reconstruction/modules/opening_angle.py
@@ -334,7 +334,8 @@ class CircularizedAngularUncertainty:
         delta_loss : array_like
             The delta log likelihood values of best fit vs sample point.
         x0 : float, optional
-            Initial guess for circularized uncertainty
+            Initial guess for circularized uncertainty, if there is none from
+            the provided points.
         ddof : int, optional
             Degrees of freedom to use for chi2 fit.
 
@@ -346,11 +347,19 @@ class CircularizedAngularUncertainty:
         ts = 2 * delta_loss
         cdf_values = chi2(ddof).cdf(ts)
 
-        def loss_cdf(sigma, delta_psi, cdf_values):
-            loss = (cdf_values -
-                    basis_functions.rayleigh_cdf(delta_psi, sigma))**2
+        def loss_cdf(log_sigma, delta_psi, cdf_values):
+            loss = (cdf_values - basis_functions.rayleigh_cdf(
+                delta_psi, np.exp(log_sigma)))**2
             return np.sum(loss)
 
+        # start with the point that is closest to one sigma: the loss is flat
+        # for sigmas which are far off
+        closest = np.argmin(np.abs(
+            cdf_values - basis_functions.rayleigh_cdf(1., 1.)))
+        if delta_psi[closest] > 0:
+            x0 = delta_psi[closest]
+
+        # sigma must be positive
         result_wilks = optimize.minimize(
-            loss_cdf, x0=x0, args=(delta_psi, cdf_values))
-        return result_wilks.x[0]
+            loss_cdf, x0=np.log(x0), args=(delta_psi, cdf_values))
+        return np.exp(result_wilks.x[0])
-- 
2.43.0


From 1870a3d2603211187fce6827c38ed6fc3d0bdc1b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 82/89] fix: results of other optimizers than scipy could not
 be written to the frame

---
 egenerator/ic3/reconstruction.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/egenerator/ic3/reconstruction.py b/egenerator/ic3/reconstruction.py
index ac5e13c..4b9393f 100644
--- a/egenerator/ic3/reconstruction.py
+++ b/egenerator/ic3/reconstruction.py
@@ -1,4 +1,5 @@
 import os
+import numpy as np
 import tensorflow as tf
 
 from icecube import dataclasses, icetray
@@ -359,7 +360,7 @@ class EventGeneratorReconstruction(icetray.I3ConditionalModule):
             result_dict[name] = float(best_fit[i])
         for name in self.reco_tray.module_names:
             result_dict['runtime_' + name] = results[name]['runtime']
-        result_dict['minimization_success'] = best_fit_obj.success
+        result_dict['minimization_success'] = self.is_successful(best_fit_obj)
         result_dict['loss_reco'] = float(results['reco']['loss_reco'])
         result_dict['loss_seed'] = float(results['reco']['loss_seed'])
 
@@ -458,6 +459,27 @@ class EventGeneratorReconstruction(icetray.I3ConditionalModule):
         # push frame to next modules
         self.PushFrame(frame)
 
+    def is_successful(self, result_object):
+        """Check if the minimization was successful.
+
+        Parameters
+        ----------
+        result_object : object
+            The result object of the optimizer. This depends on the chosen
+            `reco_optimizer_interface`.
+
+        Returns
+        -------
+        bool
+            True, if the minimization was successful.
+        """
+        if isinstance(result_object, dict):
+            # scipy and spherical optimizer
+            return bool(result_object['success'])
+
+        # tensorflow probability
+        return bool(np.all(result_object.converged))
+
     def write_cov_matrix(self, frame, cov, cov_name):
         """Write covariance matrix to the frame.
 
-- 
2.43.0


From d60aa45da1e26d5833bc0aa4f94e9dcf5340d8a1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:46:07 +0000
Subject: [PATCH 83/89] fix: directories that differ only after the last dot
 shared their files

---
 egenerator/create_trafo_model.py | 4 ++--
 egenerator/manager/component.py  | 4 ----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/egenerator/create_trafo_model.py b/egenerator/create_trafo_model.py
index 5a44d0e..88a4fd8 100644
--- a/egenerator/create_trafo_model.py
+++ b/egenerator/create_trafo_model.py
@@ -31,10 +31,10 @@ def main(config_files):
 
     # Check if path already exists
     model_dir = config['data_trafo_settings']['model_dir']
-    if os.path.exists(os.path.splitext(model_dir)[0]):
+    if os.path.exists(model_dir):
         if not click.confirm(
                 'File already exists at destination. Overwrite {!r}?'.format(
-                    os.path.splitext(model_dir)[0]),
+                    model_dir),
                 default=False):
             raise ValueError('Aborting!')
 
diff --git a/egenerator/manager/component.py b/egenerator/manager/component.py
index 959ccf6..7740f89 100644
--- a/egenerator/manager/component.py
+++ b/egenerator/manager/component.py
@@ -829,8 +829,6 @@ class BaseComponent(object):
             else:
                 raise AttributeError(msg.format(untracked_attributes))
 
-        # split of possible extension
-        dir_path = os.path.splitext(dir_path)[0]
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
         data_file_path = os.path.join(dir_path, 'data.pickle')
 
@@ -910,8 +908,6 @@ class BaseComponent(object):
         # This indicates an incorrect usage of the BaseComponent class.
         self._check_member_attributes()
 
-        # split of possible extension
-        dir_path = os.path.splitext(dir_path)[0]
         config_file_path = os.path.join(dir_path, 'configuration.yaml')
         data_file_path = os.path.join(dir_path, 'data.pickle')
 
-- 
2.43.0


From 7699527610a391b9b29ffa36ab020bf9f9cb2e4b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 84/89] fix: test reconstruction failed if the output file is
 given without directory

---
 egenerator/manager/source.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index b67d227..90b73ed 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1318,7 +1318,7 @@ class SourceManager(BaseModelManager):
 
         # create directory if needed
         directory = os.path.dirname(reco_config['reco_output_file'])
-        if not os.path.exists(directory):
+        if directory and not os.path.exists(directory):
             os.makedirs(directory)
             self._logger.info('Creating directory: {!r}'.format(directory))
 
-- 
2.43.0


From fe48a05a14e7653c3f25824af4b3afff1913c0d7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 85/89] fix: test reconstruction with covariances failed for
 other optimizers than scipy

---
 egenerator/manager/source.py | 37 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 90b73ed..235fefe 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1603,21 +1603,26 @@ class SourceManager(BaseModelManager):
 
                 # extract results
                 cov = results['covariance']['cov']
-                cov_fit = results['covariance']['cov_fit']
                 cov_sand = results['covariance']['cov_sand']
-                cov_sand_fit = results['covariance']['cov_sand_fit']
 
                 # save correlation between zenith and azimuth
                 zen_index = self.models[0].get_index(mapping['zenith'])
                 azi_index = self.models[0].get_index(mapping['azimuth'])
 
                 cov_zen_azi_list.append(cov[zen_index, azi_index])
-                cov_fit_zen_azi_list.append(cov_fit[zen_index, azi_index])
 
                 std_devs_sandwich.append(np.sqrt(np.diag(cov_sand)))
-                std_devs_sandwich_fit.append(np.sqrt(np.diag(cov_sand_fit)))
                 std_devs.append(np.sqrt(np.diag(cov)))
-                std_devs_fit.append(np.sqrt(np.diag(cov_fit)))
+
+                # only some optimizers provide an estimate of the covariance
+                if 'cov_fit' in results['covariance']:
+                    cov_fit = results['covariance']['cov_fit']
+                    cov_sand_fit = results['covariance']['cov_sand_fit']
+
+                    cov_fit_zen_azi_list.append(cov_fit[zen_index, azi_index])
+                    std_devs_sandwich_fit.append(
+                        np.sqrt(np.diag(cov_sand_fit)))
+                    std_devs_fit.append(np.sqrt(np.diag(cov_fit)))
 
                 # Write to file
                 cov_file = '{}_cov_{:08d}.npy'.format(
@@ -1781,10 +1786,11 @@ class SourceManager(BaseModelManager):
         cascade_parameters_reco = np.stack(cascade_parameters_reco, axis=0)
 
         if calculate_covariance_matrix:
-            std_devs_fit = np.stack(std_devs_fit, axis=0)
             std_devs = np.stack(std_devs, axis=0)
             std_devs_sandwich = np.stack(std_devs_sandwich, axis=0)
-            std_devs_sandwich_fit = np.stack(std_devs_sandwich_fit, axis=0)
+            if 'cov_fit' in results['covariance']:
+                std_devs_fit = np.stack(std_devs_fit, axis=0)
+                std_devs_sandwich_fit = np.stack(std_devs_sandwich_fit, axis=0)
 
         if estimate_angular_uncertainty:
             circular_unc_list = np.stack(circular_unc_list, axis=0)
@@ -1800,18 +1806,21 @@ class SourceManager(BaseModelManager):
                 df_reco[param_name + name] = params[:, index]
 
         if calculate_covariance_matrix:
+            uncertainties = [['_unc', std_devs],
+                             ['_unc_sandwhich', std_devs_sandwich]]
+            if 'cov_fit' in results['covariance']:
+                uncertainties += [
+                    ['_unc_fit', std_devs_fit],
+                    ['_unc_sandwhich_fit', std_devs_sandwich_fit]]
+
             for index, param_name in enumerate(self.models[0].parameter_names):
-                for name, unc in (['_unc', std_devs],
-                                  ['_unc_fit', std_devs_fit],
-                                  ['_unc_sandwhich', std_devs_sandwich],
-                                  ['_unc_sandwhich_fit',
-                                   std_devs_sandwich_fit],
-                                  ):
+                for name, unc in uncertainties:
                     df_reco[param_name + name] = unc[:, index]
 
             # save correlation between zenith and azimuth
             df_reco['cov_zenith_azimuth'] = cov_zen_azi_list
-            df_reco['cov_fit_zenith_azimuth'] = cov_fit_zen_azi_list
+            if 'cov_fit' in results['covariance']:
+                df_reco['cov_fit_zenith_azimuth'] = cov_fit_zen_azi_list
 
         if estimate_angular_uncertainty:
             df_reco['circular_unc'] = circular_unc_list
-- 
2.43.0


From 21ccc8ed7fa810c1bebbff05d5582159f5e1dec3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:33:26 +0000
Subject: [PATCH 86/89] fix: test reconstruction with MCMC failed at the first
 event

---
 egenerator/manager/source.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 235fefe..7e1a5b3 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1690,7 +1690,7 @@ class SourceManager(BaseModelManager):
 
                 if num_accepted > 0:
                     index_max = np.argmax(log_prob_values)
-                    print('\tBest Sample: ' + msg.format(*samples[index_max]))
+                    print('\tBest Sample: {}'.format(samples[index_max]))
                     print('\tmin loss_values: {:3.2f}'.format(
                                                         -max(log_prob_values)))
 
@@ -1725,7 +1725,7 @@ class SourceManager(BaseModelManager):
                         max_val_50 = max(central_50p[:, i])
 
                         msg = '\t{:8.2f}: {:8.2f} {:8.2f} {:8.2f} {:8.2f} [{}]'
-                        print(msg.format(cascade_true[i], min_val_90,
+                        print(msg.format(cascade_true_batch[0][i], min_val_90,
                                          min_val_50, max_val_50, max_val_90,
                                          name))
             # -------------
-- 
2.43.0


From de4c6d6e926ef26be38136afce7a953f9f43d0dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 87/89] fix: RandomWalkMetropolis chains could not be created

The kernel does not take a seed anymore, it is passed to the chain.
---
 egenerator/manager/source.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 7e1a5b3..7d3c573 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1224,8 +1224,7 @@ class SourceManager(BaseModelManager):
         elif method == 'RandomWalkMetropolis':
             adaptive_hmc = tfp.mcmc.RandomWalkMetropolis(
                 target_log_prob_fn=unnormalized_log_prob,
-                new_state_fn=tfp.mcmc.random_walk_normal_fn(scale=step_size),
-                seed=mcmc_seed)
+                new_state_fn=tfp.mcmc.random_walk_normal_fn(scale=step_size))
         else:
             raise ValueError('Unknown method: {!r}'.format(method))
 
@@ -1255,7 +1254,8 @@ class SourceManager(BaseModelManager):
                 current_state=initial_position,
                 kernel=adaptive_hmc,
                 trace_fn=trace_fn,
-                parallel_iterations=num_parallel_iterations)
+                parallel_iterations=num_parallel_iterations,
+                seed=mcmc_seed)
             samples = tf.reshape(samples,
                                  [num_chains*num_results, num_params])
             if minimize_in_trafo_space:
-- 
2.43.0


From 192d8b2bccda67b6b6186f29e29a777435a56329 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 88/89] fix: Markov chains failed if only some parameters are
 fitted

---
 .../manager/reconstruction/modules/mcmc.py    | 15 ++++-----
 egenerator/manager/source.py                  | 31 ++++++++++++++++---
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/mcmc.py b/egenerator/manager/reconstruction/modules/mcmc.py
index b0c36c8..c5cb523 100644
--- a/egenerator/manager/reconstruction/modules/mcmc.py
+++ b/egenerator/manager/reconstruction/modules/mcmc.py
@@ -173,11 +173,11 @@ class MarkovChainMonteCarlo:
                 data=initial_position,
                 tensor_name=self.parameter_tensor_name)
 
-        initial_position = tf.reshape(
-            tf.convert_to_tensor(
-                initial_position,
-                dtype=self.param_dtype),
-            [self.mcmc_num_chains, len(self.fit_paramater_list)])
+        # the chains only run in the parameters that are fitted
+        initial_position = tf.convert_to_tensor(
+            np.asarray(initial_position)[
+                :, np.asarray(self.fit_paramater_list, dtype=bool)],
+            dtype=self.param_dtype)
         print('initial_position', initial_position)
         print('initial_position.shape', initial_position.shape)
         mcmc_start_t = timeit.default_timer()
@@ -191,8 +191,9 @@ class MarkovChainMonteCarlo:
             steps = trace[2].numpy()
             step_size = steps[0][0]
             if self.minimize_in_trafo_space:
-                step_size *= self.manager.data_trafo.data[
-                                        self.parameter_tensor_name+'_std']
+                step_size = step_size * self.manager.data_trafo.data[
+                    self.parameter_tensor_name+'_std'][
+                        np.asarray(self.fit_paramater_list, dtype=bool)]
 
         num_accepted = np.sum(accepted)
         num_samples = samples.shape[0] * samples.shape[1]
diff --git a/egenerator/manager/source.py b/egenerator/manager/source.py
index 7d3c573..0c04563 100644
--- a/egenerator/manager/source.py
+++ b/egenerator/manager/source.py
@@ -1185,8 +1185,8 @@ class SourceManager(BaseModelManager):
         if method == 'HamiltonianMonteCarlo':
             step_size = [[.1, .1, .1, 0.01, 0.02, 10., 1.]]
 
-        if num_params != len(step_size[0]):
-            step_size = [[0.1 for p in range(num_params)]]
+        if len(fit_paramater_list) != len(step_size[0]):
+            step_size = [[0.1 for p in fit_paramater_list]]
 
         step_size = np.array(step_size)
 
@@ -1201,8 +1201,10 @@ class SourceManager(BaseModelManager):
                     step_size[0][i] = 0.01
             step_size /= self.data_trafo.data[parameter_tensor_name+'_std']
 
+        # the chains only run in the parameters that are fitted
+        step_size = step_size[:, np.asarray(fit_paramater_list, dtype=bool)]
         step_size = tf.convert_to_tensor(step_size, dtype=parameter_dtype)
-        step_size = tf.reshape(step_size, [1, len(fit_paramater_list)])
+        step_size = tf.reshape(step_size, [1, num_params])
 
         # Define transition kernel
         if method == 'HamiltonianMonteCarlo':
@@ -1258,12 +1260,31 @@ class SourceManager(BaseModelManager):
                 seed=mcmc_seed)
             samples = tf.reshape(samples,
                                  [num_chains*num_results, num_params])
+
+            # parameters that are not fitted keep their seed value
+            if not np.all(fit_paramater_list):
+                if isinstance(seed, str):
+                    seed_tensor = data_batch[
+                        self.data_handler.tensors.get_index(seed)]
+                else:
+                    seed_tensor = seed
+                if minimize_in_trafo_space:
+                    seed_tensor = self.data_trafo.transform(
+                        data=seed_tensor, tensor_name=parameter_tensor_name)
+
+                sample_list = tf.unstack(samples, axis=1)
+                samples = tf.stack([
+                    sample_list.pop(0) if fit
+                    else tf.repeat(seed_tensor[:, i],
+                                   num_chains*num_results)
+                    for i, fit in enumerate(fit_paramater_list)], axis=1)
+
             if minimize_in_trafo_space:
                 samples = self.data_trafo.inverse_transform(
                     data=samples, tensor_name=parameter_tensor_name)
 
-            samples = tf.reshape(samples,
-                                 [num_results, num_chains, num_params])
+            samples = tf.reshape(
+                samples, [num_results, num_chains, len(fit_paramater_list)])
 
             return samples, trace
         return run_chain()
-- 
2.43.0


From 7598db7dccf845285a5faa529719bc0ecf18ca71 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:08:54 +0000
Subject: [PATCH 89/89] fix: likelihood scans were wrong in original space and
 failed for partial fits

---
 .../manager/reconstruction/modules/visualization.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/egenerator/manager/reconstruction/modules/visualization.py b/egenerator/manager/reconstruction/modules/visualization.py
index cac5614..07ef7d0 100644
--- a/egenerator/manager/reconstruction/modules/visualization.py
+++ b/egenerator/manager/reconstruction/modules/visualization.py
@@ -54,9 +54,10 @@ class Visualize1DLikelihoodScan:
 
         param_dtype = getattr(tf, manager.data_trafo.data['tensors'][
             parameter_tensor_name].dtype)
+
+        # the scans set all parameters, and they do so in transformed space
         param_signature = tf.TensorSpec(
-            shape=[None, np.sum(fit_paramater_list, dtype=int)],
-            dtype=param_dtype)
+            shape=[None, len(fit_paramater_list)], dtype=param_dtype)
 
         # define data batch tensor specification
         data_batch_signature = manager.data_handler.get_data_set_signature()
@@ -65,8 +66,8 @@ class Visualize1DLikelihoodScan:
         func_settings = dict(
             input_signature=(param_signature, data_batch_signature),
             loss_module=loss_module,
-            fit_paramater_list=fit_paramater_list,
-            minimize_in_trafo_space=minimize_in_trafo_space,
+            fit_paramater_list=[True]*len(fit_paramater_list),
+            minimize_in_trafo_space=True,
             seed=seed_tensor_name,
             parameter_tensor_name=parameter_tensor_name,
         )
@@ -95,7 +96,9 @@ class Visualize1DLikelihoodScan:
         TYPE
             Description
         """
-        result_trafo = results[self.reco_key]['result_trafo']
+        result_trafo = self.manager.data_trafo.transform(
+            data=results[self.reco_key]['result'],
+            tensor_name=self.parameter_tensor_name)
         if self.covariance_key is not None:
             covariances = results[self.covariance_key]
 
-- 
2.43.0

