From 505ce0bedcf1582511f63f8e1269c9b186cadcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 01/43] fix: particle-free parameter lookup returns the
 interval that contains the time

Searching to the right stopped at the first interval that starts at or after the
requested time, so the next interval was returned and the result depended on the
previously requested times.
---
 neuro_shooting/shooting_blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index eef0237..9031940 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -76,9 +76,9 @@ class ParticleFreeParameterFunc(object):
                 elif t>self.last_used_time: # t>=self.last_used_time, search to the right, but does not go outside the range
                     # first check if it is larger than the largest where we havge a parameter
                     # search to the right, and it is not greater thatn the last so we can savely go to the right until we find it
-                    while t>self.last_used_time:
+                    while t>=self.times[self.last_used_time_idx+1]:
                         self.last_used_time_idx += 1
-                        self.last_used_time = self.times[self.last_used_time_idx]
+                    self.last_used_time = self.times[self.last_used_time_idx]
                     return self.time_parameter_list[self.last_used_time_idx]
                 else:
                     raise ValueError('This should never have happend. Uncaught time {}'.format(t.item()))
-- 
2.43.0


From c0e140b7f0cf6bfa10d9a607b88cc15435c25dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 02/43] fix: particle-free modes work with autodiff costate
 evolution

The parameter function object was called although it is not callable.
---
 neuro_shooting/shooting_integrands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 2bbc9c1..342a548 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -365,7 +365,7 @@ class ShootingIntegrandBase(nn.Module):
                 if self._rnn_parameter_func is None:
                     raise ValueError('Externally managed RNN parameter function cannot be created here. Should have been assigned before.')
 
-                parameter_objects = self._rnn_parameter_func(t)
+                parameter_objects = self._rnn_parameter_func.get_parameters_at_time(t)
             else:
                 if self._rnn_parameters is None:
                     parameter_objects = self.compute_parameters(t=t, state_dict_of_dicts=state_dict_of_dicts,
-- 
2.43.0


From 95f365c2847c8baae805d0fbb0b3d99fba7b2a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 03/43] fix: a block with an integration time vector can be
 moved or converted

to() and _apply() failed because the integration time is None then, and the
time vector was not moved.
---
 neuro_shooting/shooting_blocks.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 9031940..51537cc 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -271,13 +271,19 @@ class ShootingBlockBase(nn.Module):
     def _apply(self, fn):
         super(ShootingBlockBase, self)._apply(fn)
         self.shooting_integrand._apply(fn)
-        self.integration_time = fn(self.integration_time)
+        if self.integration_time is not None:
+            self.integration_time = fn(self.integration_time)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = fn(self.integration_time_vector)
         return self
 
     def to(self, *args, **kwargs):
         super(ShootingBlockBase,self).to(*args, **kwargs)
         self.shooting_integrand.to(*args, **kwargs)
-        self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time is not None:
+            self.integration_time = self.integration_time.to(*args, **kwargs)
+        if self.integration_time_vector is not None:
+            self.integration_time_vector = self.integration_time_vector.to(*args, **kwargs)
         return self
 
     def create_initial_state_and_costate_parameters(self, *args, **kwargs):
-- 
2.43.0


From 821b43dae50f2249abddffced16b08184d6ec1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 04/43] fix: keep_initial_state_parameters_at_zero no longer
 fails

Zeroing in place was attempted on leaf tensors that require a gradient (and via
a method that does not exist for the enlargement); as documented, states kept at
zero, including enlargements, are not optimized over.
---
 neuro_shooting/shooting_blocks.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 51537cc..5d07461 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -548,7 +548,7 @@ class ShootingBlockBase(nn.Module):
             if keep_state_parameters_at_zero:
                 print('INFO: Keeping new state parameters at zero for {}'.format(self._block_name))
                 for k in state_dict:
-                    state_dict[k].zero_()
+                    state_dict[k].data.zero_()
             else:
                 for k in state_dict:
                     self.register_parameter(k,state_dict[k])
@@ -578,9 +578,10 @@ class ShootingBlockBase(nn.Module):
                         if c_state_dict[k] is not None:
                             if keep_state_parameters_at_zero:
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
-                                c_state_dict[k][0]._zero()
-                            self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
-                            print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
+                                c_state_dict[k][0].data.zero_()
+                            else:
+                                self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
+                                print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
         if pass_through_costate_dict_of_dicts_enlargement_parameters is not None:
 
-- 
2.43.0


From 7a5d8276f5094b0f418fb29d88cd57a532b76d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 05/43] fix: register the enlargement parameters of every
 pass-through block

They were all registered under the name of the key only, so with several
pass-through blocks all but the last were missing from parameters().
---
 neuro_shooting/shooting_blocks.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 5d07461..5d9dcbb 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -580,7 +580,7 @@ class ShootingBlockBase(nn.Module):
                                 print('INFO: Keeping new state enlargement parameters at zero for {}'.format(self._block_name))
                                 c_state_dict[k][0].data.zero_()
                             else:
-                                self.register_parameter('pt_enlarge_' + k, c_state_dict[k][0])
+                                self._register_enlargement_parameter(dk, k, c_state_dict[k][0])
                                 print('INFO: registering enlargement state parameters {} of size {} for block {}'.format(k,c_state_dict[k][0].numel(),self._block_name))
 
         if pass_through_costate_dict_of_dicts_enlargement_parameters is not None:
@@ -590,9 +590,16 @@ class ShootingBlockBase(nn.Module):
                 if c_costate_dict is not None:
                     for k in c_costate_dict:
                         if c_costate_dict[k] is not None:
-                            self.register_parameter('pt_enlarge_' + k, c_costate_dict[k][0])
+                            self._register_enlargement_parameter(dk, k, c_costate_dict[k][0])
                             print('INFO: registering enlargement costate parameters {} of size {} for block {}'.format(k,c_costate_dict[k][0].numel(),self._block_name))
 
+    def _register_enlargement_parameter(self, block_name, key, parameter):
+        parameter_name = 'pt_enlarge_' + key
+        if parameter_name in self._parameters:
+            # there is more than one pass-through block with this key
+            parameter_name = 'pt_enlarge_{}_{}'.format(str(block_name).replace('.','__'),key)
+        self.register_parameter(parameter_name, parameter)
+
     def _get_or_create_and_register_pass_through_enlargement_parameters(self,pass_through_state_dict_of_dicts,pass_through_costate_dict_of_dicts,*args,**kwargs):
 
         if self._forward_not_yet_executed:
-- 
2.43.0


From c9d58e7a0794be48b970b11a9c51c5ec36c46142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 06/43] fix: transpose_state_when_forward no longer fails

The transposition read from its own (empty) result, and the data derivatives were
not transposed block by block.
---
 neuro_shooting/shooting_integrands.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 342a548..10eb50b 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -768,7 +768,7 @@ class ShootingIntegrandBase(nn.Module):
         # there might be multiple dictionaries that constitute the state dictionary, so transpose each of them
         ret_dicts = SortedDict()
         for k in generic_dict_dict_of_dicts:
-            ret_dicts[k] = self.transpose_state(ret_dicts[k])
+            ret_dicts[k] = self.transpose_state(generic_dict_dict_of_dicts[k])
         return ret_dicts
 
     def transpose_state(self,generic_dict):
@@ -808,7 +808,7 @@ class ShootingIntegrandBase(nn.Module):
                 # as we transposed the vectors before we need to transpose on the way back
                 dot_state_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_state_dict_of_dicts)
                 dot_costate_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_costate_dict_of_dicts)
-                dot_data_dict_of_dicts = self.transpose_state(dot_data_dict_of_dicts)
+                dot_data_dict_of_dicts = self.transpose_state_dict_of_dicts(dot_data_dict_of_dicts)
 
             # create a vector out of this to pass to integrator
             output,assembly_plans = self.assemble_tensor(state_dict_of_dicts=dot_state_dict_of_dicts, costate_dict_of_dicts=dot_costate_dict_of_dicts, data_dict_of_dicts=dot_data_dict_of_dicts)
-- 
2.43.0


From bdfb33af2992b38a1a5192f14475e7d7db3ecb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 07/43] fix: disassemble_tensor accepts an explicitly given
 assembly plan

It raised 'no assembly plan specified' exactly when one was specified.
---
 neuro_shooting/shooting_integrands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 10eb50b..f4ade36 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -256,7 +256,8 @@ class ShootingIntegrandBase(nn.Module):
 
         if assembly_plans is None:
             assembly_plans = self.auto_assembly_plans
-        else:
+
+        if assembly_plans is None:
             raise ValueError('No assembly plan specified to disassemble tensor. Either explicity specify when calling this method or set one via set_auto_assembly_plans')
 
         return scd_utils.disassemble_tensor(input=input, assembly_plans=assembly_plans, dim=dim)
-- 
2.43.0


From f24b773e1d5fbac0107414ae8597c69343dbfdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 08/43] fix: use the derivative of the sigmoid as its
 derivative

The sigmoid itself was returned, so analytic costate evolution was wrong.
---
 neuro_shooting/activation_functions_and_derivatives.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/activation_functions_and_derivatives.py b/neuro_shooting/activation_functions_and_derivatives.py
index a0c02df..c72c425 100644
--- a/neuro_shooting/activation_functions_and_derivatives.py
+++ b/neuro_shooting/activation_functions_and_derivatives.py
@@ -18,6 +18,11 @@ def dtanh(x):
     # derivative of tanh
     return 1.0-torch.tanh(x)**2
 
+def dsigmoid(x):
+    # derivative of sigmoid
+    s = torch.sigmoid(x)
+    return s*(1.0-s)
+
 def identity(x):
     return x
 
@@ -54,7 +59,7 @@ def get_nonlinearity(nonlinearity):
         dnl = didentity
     elif use_nonlinearity == 'sigmoid':
         nl = torch.sigmoid
-        dnl = torch.sigmoid
+        dnl = dsigmoid
     elif use_nonlinearity == 'softmax':
         nl = softmax
         dnl = dsoftmax
-- 
2.43.0


From 5d2f6fe70b4dd75761ebd67753b37e187b292814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 09/43] fix: a parameter sweep no longer returns the results of
 earlier sweeps

The accumulators were mutable default arguments shared by all calls.
---
 neuro_shooting/command_line_execution_tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 2c9164e..99202dd 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -3,7 +3,12 @@ import os
 import copy
 from collections import OrderedDict
 
-def recursively_sweep_parameters(pars_to_sweep,par_dict=OrderedDict(),swept_parameter_list=[]):
+def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_list=None):
+
+    if par_dict is None:
+        par_dict = OrderedDict()
+    if swept_parameter_list is None:
+        swept_parameter_list = []
 
     cur_pars = copy.deepcopy(pars_to_sweep)
     # get first key and remove it
-- 
2.43.0


From 71253f700874dc65ca3c7959d71c45666b764bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 10/43] fix: do not modify the integrator options of the caller

The default step size was written into the caller's dictionary, so another
integrator created from it silently ignored its own step size.
---
 neuro_shooting/generic_integrator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index a350400..ac8bc66 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -78,9 +78,10 @@ class GenericIntegrator(object):
             raise ValueError('Integrator {} not available for {}'.format(self.integrator_name, self.integrator_library))
 
         self.use_adjoint_integration = use_adjoint_integration
-        self.integrator_options = integrator_options
-        if self.integrator_options is None:
+        if integrator_options is None:
             self.integrator_options = dict()
+        else:
+            self.integrator_options = dict(integrator_options) # copy, as we may add to it
 
         self.kwargs = kwargs
 
-- 
2.43.0


From 55ffbbed1a1a89297e9575b62c533f2c8acb7f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 11/43] fix: use the result of the first shooting block in
 BasicResNet

With a single block the class scores were computed without it.
---
 neuro_shooting/res_net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/res_net.py b/neuro_shooting/res_net.py
index e564cdd..50020ce 100644
--- a/neuro_shooting/res_net.py
+++ b/neuro_shooting/res_net.py
@@ -182,7 +182,7 @@ class BasicResNet(nn.Module):
         for shooting_layer,striding_block in zip(self.shooting_layers,self.striding_blocks):
             for shooting_block in shooting_layer:
                 if is_first:
-                    _, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
+                    ret, state_dicts, costate_dicts, data_dicts = shooting_block(x=ret)
                     is_first = False
                 else:
                     ret, state_dicts, costate_dicts, data_dicts = shooting_block(data_dict_of_dicts=data_dicts,
-- 
2.43.0


From 5d66cdcd78d6422e20eebb52f0abe2a556d51629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 12/43] fix: convolution without bias and group norm without
 affine parameters work

Their forward methods looked up entries that do not exist in this case.
---
 neuro_shooting/overwrite_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index 637d283..b431d25 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -160,10 +160,10 @@ class SNN_Conv2d(nn.Conv2d,RemoveParameters):
             expanded_padding = ((self.padding[1] + 1) // 2, self.padding[1] // 2,
                                 (self.padding[0] + 1) // 2, self.padding[0] // 2)
             return F.conv2d(F.pad(input, expanded_padding, mode='circular'),
-                            self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
+                            self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,
                             _pair(0), self.dilation, self.groups)
 
-        return F.conv2d(input, self._parameter_dict['weight'], self._parameter_dict['bias'], self.stride,
+        return F.conv2d(input, self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,
                         self.padding, self.dilation, self.groups)
 
 
@@ -191,7 +191,7 @@ class SNN_GroupNorm(nn.GroupNorm,RemoveParameters):
 
     def forward(self, input):
         return F.group_norm(
-            input, self.num_groups, self._parameter_dict['weight'], self._parameter_dict['bias'], self.eps)
+            input, self.num_groups, self._parameter_dict.get('weight'), self._parameter_dict.get('bias'), self.eps)
 
 
 
-- 
2.43.0


From a772471b03a17b6b85315f187514fd7185bae743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 13/43] fix: convolution initializers can create constant
 parameters

create_parameters(set_to_constant=...) called a method they did not have.
---
 neuro_shooting/parameter_initialization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neuro_shooting/parameter_initialization.py b/neuro_shooting/parameter_initialization.py
index 20ded7e..ae21a1b 100644
--- a/neuro_shooting/parameter_initialization.py
+++ b/neuro_shooting/parameter_initialization.py
@@ -152,6 +152,14 @@ class ConvolutionEvolutionParameterInitializerBase(ParameterInitializer):
         size = tuple([nr_of_particles,particle_dimension,*particle_size])
         return nn.Parameter(torch.zeros(size))
 
+    def create_constant_parameters(self, nr_of_particles, particle_size, particle_dimension=1, constant=None, *argv, **kwargs):
+
+        if type(particle_size)!=tuple and type(particle_size)!=list:
+            raise ValueError('Expected the particle size as a tuple or list e.g., [3,3], but got {}.'.format(type(particle_size)))
+
+        size = tuple([nr_of_particles,particle_dimension,*particle_size])
+        return nn.Parameter(constant*torch.ones(size))
+
 class ConvolutionEvolutionParameterInitializer(ConvolutionEvolutionParameterInitializerBase):
     def __init__(self, only_random_initialization=True, random_initialization_magnitude=0.5, sample_batch=None):
         super(ConvolutionEvolutionParameterInitializer, self).__init__(
-- 
2.43.0


From 4f0d0f84e3410a9ba37a67b0df16f9dfcc7bded2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:50 +0000
Subject: [PATCH 14/43] fix: custom_lr_scheduler can be imported with current
 PyTorch

torch._six no longer exists.
---
 neuro_shooting/custom_lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/custom_lr_scheduler.py b/neuro_shooting/custom_lr_scheduler.py
index 0ce03bb..f2cce03 100644
--- a/neuro_shooting/custom_lr_scheduler.py
+++ b/neuro_shooting/custom_lr_scheduler.py
@@ -2,7 +2,7 @@ import torch
 
 import math
 import torch
-from torch._six import inf
+from math import inf
 from functools import partial
 from torch.optim import Optimizer
 
-- 
2.43.0


From 54fd53107fa71c3c00db105ae36a824547e71fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:15 +0000
Subject: [PATCH 15/43] fix: checkpoints work with double precision times

The checkpoint times were always created with the default type, so for double
precision times they did not match the requested ones: the last time-point was
dropped or the integration failed.
---
 neuro_shooting/generic_integrator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index ac8bc66..07bd44c 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -154,13 +154,19 @@ class GenericIntegrator(object):
         t_from = t[0]
         t_to = t[-1]
 
+        # the time-points are compared to the requested times, hence they need to be of the same type
+        if torch.is_tensor(t) and t.is_floating_point():
+            time_kwargs = {'dtype': t.dtype, 'device': t.device}
+        else:
+            time_kwargs = {}
+
         if self.nr_of_checkpoints is not None:
-            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2) # if we want one checkpoint we need three points, hence +2
+            checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2,**time_kwargs) # if we want one checkpoint we need three points, hence +2
         elif self.checkpointing_time_interval is not None:
-            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval)
+            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval,**time_kwargs)
             if checkpointing_time_points[-1]!=t_to:
                 # append it
-                checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to])), dim=0)
+                checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to],**time_kwargs)), dim=0)
         else:
             raise ValueError('Either nr_of_checkpoints or checkpointing_time_interval needs to be set.')
 
-- 
2.43.0


From 045d3b96b8d8935b7414788f34b043c84abd478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:15 +0000
Subject: [PATCH 16/43] fix: checkpoints work when integrating backwards in
 time

Only one time-point was returned for decreasing times.
---
 neuro_shooting/generic_integrator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index 07bd44c..8aded17 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -160,10 +160,13 @@ class GenericIntegrator(object):
         else:
             time_kwargs = {}
 
+        # time may also run backwards
+        sign = 1 if t_to>=t_from else -1
+
         if self.nr_of_checkpoints is not None:
             checkpointing_time_points = torch.linspace(t_from,t_to,self.nr_of_checkpoints+2,**time_kwargs) # if we want one checkpoint we need three points, hence +2
         elif self.checkpointing_time_interval is not None:
-            checkpointing_time_points = torch.arange(t_from,t_to,self.checkpointing_time_interval,**time_kwargs)
+            checkpointing_time_points = torch.arange(t_from,t_to,sign*self.checkpointing_time_interval,**time_kwargs)
             if checkpointing_time_points[-1]!=t_to:
                 # append it
                 checkpointing_time_points = torch.cat((checkpointing_time_points, torch.tensor([t_to],**time_kwargs)), dim=0)
@@ -199,12 +202,12 @@ class GenericIntegrator(object):
             next_t = t[idx_t]
             next_cp_t = checkpointing_time_points[idx_checkpoint_t]
 
-            if next_cp_t>next_t:
+            if sign*next_cp_t>sign*next_t:
                 # case: just keep on adding this time-point to the current time-interval and retain it for the output
                 current_time_interval = torch.cat((current_time_interval,torch.tensor([next_t])))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                 idx_t += 1
-            elif next_cp_t<next_t:
+            elif sign*next_cp_t<sign*next_t:
                 # case: this is the checkpoint we want, so finalize it and move on to the next one
                 current_time_interval = torch.cat((current_time_interval,torch.tensor([next_cp_t])))
                 current_output_time_point = torch.cat((current_output_time_point,torch.tensor([False])))
-- 
2.43.0


From 144ecf7cf66e959a4296a39feeae400376720ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:35 +0000
Subject: [PATCH 17/43] fix: analytic costate of the dampened up-down model
 includes the dampening

The analytic evolution of p_q2 lacked the term of -dampening_factor*q2, hence it
differed from the one computed via autodiff.
---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5dcf7bf..5502446 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1594,7 +1594,7 @@ class AutoShootingIntegrandModelUpdownDampenedQ2(shooting.ShootingLinearInParame
         dot_p2t = - self.dnl(q2i) * torch.matmul(p1i,l1)
         dot_p1t = - torch.matmul(p2i,l2)
         rhs['dot_p_q1'] = dot_p1t #- self.dampening_factor * p1i
-        rhs['dot_p_q2'] = dot_p2t #- self.dampening_factor * p2i
+        rhs['dot_p_q2'] = dot_p2t + self.dampening_factor * p2i
 
         return rhs
 
-- 
2.43.0


From 5e0a4c65bc99c9313f47911d931616f1673d2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:04 +0000
Subject: [PATCH 18/43] fix: concatenate along the right dimension when all
 times are output

With an integration time vector the outputs have a leading time dimension, but
they were concatenated along the dimension counted without it.
---
 neuro_shooting/shooting_blocks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 5d9dcbb..85e112f 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -709,29 +709,31 @@ class ShootingBlockBase(nn.Module):
             res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time_vector)
             state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_all_times,dim=1)
             res = self.shooting_integrand.disassemble(res_all_times,dim=1)
+            nr_of_time_dims = 1 # all times are output, so there is an additional leading dimension
         else:
             res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time)
             res_final = res_all_times[-1, ...]
             state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_final)
             # and get what should typically be returned (the transformed data)
             res = self.shooting_integrand.disassemble(res_final,dim=0)
+            nr_of_time_dims = 0
 
         if self.shooting_integrand.concatenate_parameters:
             # we also concatenate the output
             res_state_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=state_dict_of_dicts,
-                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                   concatenation_dim=self.shooting_integrand.concatenation_dim+nr_of_time_dims,
                                                                                                    block_name=self._block_name)
             res_costate_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=costate_dict_of_dicts,
-                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim,
+                                                                                                     concatenation_dim=self.shooting_integrand.concatenation_dim+nr_of_time_dims,
                                                                                                      block_name=self._block_name)
             res_data_dict_of_dicts = scd_utils._concatenate_named_dict_of_dicts_keeping_structure(generic_dict_of_dicts=data_dict_of_dicts,
-                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim,
+                                                                                                  concatenation_dim=self.shooting_integrand.data_concatenation_dim+nr_of_time_dims,
                                                                                                   block_name=self._block_name)
             if type(res)==torch.Tensor:
                 res_res = res
             else:
                 res_res = scd_utils._concatenate_dict_of_dicts(generic_dict_of_dicts=res,
-                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim)
+                                                               concatenation_dim=self.shooting_integrand.data_concatenation_dim+nr_of_time_dims)
                 # if we have concatenated this there should only be one key now. Check this and return it, otherwise return the entire structure
                 current_keys = list(res_res.keys())
                 if len(current_keys)==1:
-- 
2.43.0


From e2455581ee2486732916b9e4c964a21543c45789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:04 +0000
Subject: [PATCH 19/43] fix: analytic parameters are right for particles of
 dimension larger than one

---
 neuro_shooting/shooting_models.py | 38 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 5502446..96853a6 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -397,12 +397,12 @@ class AutoShootingIntegrandModelUpDown(shooting.ShootingLinearInParameterVectorI
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).sum(dim=1),weight_dict2['bias'])
 
         return p
 
@@ -629,12 +629,12 @@ class AutoShootingIntegrandModelUpDownUniversal(shooting.ShootingLinearInParamet
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).sum(dim=1),weight_dict2['bias'])
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
@@ -890,7 +890,7 @@ class AutoShootingIntegrandModelGeneralUpDown(shooting.ShootingLinearInParameter
         par_dict11 = p['l11'].get_parameter_dict()
         weight_dict11 = p['l11'].get_parameter_weight_dict()
         par_dict11['weight'] = utils.divide_by_if_not_none(l11,weight_dict11['weight'])
-        par_dict11['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict11['bias'])
+        par_dict11['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0),weight_dict11['bias'])
 
         par_dict12 = p['l12'].get_parameter_dict()
         weight_dict12 = p['l12'].get_parameter_weight_dict()
@@ -907,7 +907,7 @@ class AutoShootingIntegrandModelGeneralUpDown(shooting.ShootingLinearInParameter
         par_dict21 = p['l21'].get_parameter_dict()
         weight_dict21 = p['l21'].get_parameter_weight_dict()
         par_dict21['weight'] = utils.divide_by_if_not_none(l21,weight_dict21['weight'])
-        par_dict21['bias'] = utils.divide_by_if_not_none(torch.mean(p2i.transpose(1,2),dim = 0),weight_dict21['bias'])
+        par_dict21['bias'] = utils.divide_by_if_not_none(torch.mean(p2i.transpose(1,2),dim = 0).sum(dim=0),weight_dict21['bias'])
 
         par_dict22 = p['l22'].get_parameter_dict()
         weight_dict22 = p['l22'].get_parameter_weight_dict()
@@ -1078,9 +1078,9 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
         for i in range(self.nr_of_particles):
-            At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
+            At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
         At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l1'].get_parameter_dict()
@@ -1097,9 +1097,9 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
         for i in range(self.nr_of_particles):
-            At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
+            At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
         At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l2'].get_parameter_dict()
@@ -1243,9 +1243,9 @@ class AutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVectorI
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
         for i in range(self.nr_of_particles):
-            At = At + (pi[i, ...].t() * self.nl(qi[i, ...])).t()
+            At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
         At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0)  # -\sum_i q_i
+        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict['weight'] = utils.divide_by_if_not_none(At.t(),weight_dict['weight'])
@@ -1637,12 +1637,12 @@ class AutoShootingIntegrandModelUpdownDampenedQ2(shooting.ShootingLinearInParame
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).sum(dim=1),weight_dict2['bias'])
 
         return p
 
@@ -1822,17 +1822,17 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).sum(dim=1),weight_dict2['bias'])
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
         par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict['weight'])
-        par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0),weight_dict3['bias'])
+        par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0).sum(dim=0),weight_dict3['bias'])
         return p
 
 
@@ -2053,12 +2053,12 @@ class AutoShootingIntegrandModelUpdownPeriodic(shooting.ShootingLinearInParamete
         par_dict = p['l1'].get_parameter_dict()
         weight_dict = p['l1'].get_parameter_weight_dict()
         par_dict['weight'] = utils.divide_by_if_not_none(l1,weight_dict['weight'])
-        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0),weight_dict['bias'])
+        par_dict['bias'] = utils.divide_by_if_not_none(torch.mean(p1i,dim = 0).sum(dim=0),weight_dict['bias'])
 
         par_dict2 = p['l2'].get_parameter_dict()
         weight_dict2 = p['l2'].get_parameter_weight_dict()
         par_dict2['weight'] = utils.divide_by_if_not_none(l2,weight_dict2['weight'])
-        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).t(),weight_dict2['bias'])
+        par_dict2['bias'] = utils.divide_by_if_not_none(torch.mean(p2i,dim = 0).sum(dim=1),weight_dict2['bias'])
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
-- 
2.43.0


From cfe9f9449fa52d689e50562b2ee99c376eea359a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:13 +0000
Subject: [PATCH 20/43] fix: third layer of the symmetrized model maps onto the
 third state

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 96853a6..7a1afdd 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1692,7 +1692,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         linear1 = oc.SNN_Linear(in_features=self.in_features*self.inflation_factor,out_features=self.in_features,weight=self.parameter_weight)
         linear2 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
-        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features*self.inflation_factor,weight=self.parameter_weight)
+        linear3 = oc.SNN_Linear(in_features=self.in_features,out_features=self.in_features,weight=self.parameter_weight)
         parameter_objects['l1'] = linear1
         parameter_objects['l2'] = linear2
         parameter_objects['l3'] = linear3
-- 
2.43.0


From 9686477e829e5352c00a98fccbc124834ed2cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:41 +0000
Subject: [PATCH 21/43] fix: convolution layer honours its padding mode like
 nn.Conv2d

---
 neuro_shooting/overwrite_classes.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/neuro_shooting/overwrite_classes.py b/neuro_shooting/overwrite_classes.py
index b431d25..37b88f3 100644
--- a/neuro_shooting/overwrite_classes.py
+++ b/neuro_shooting/overwrite_classes.py
@@ -156,15 +156,7 @@ class SNN_Conv2d(nn.Conv2d,RemoveParameters):
         return self
 
     def forward(self, input):
-        if self.padding_mode == 'circular':
-            expanded_padding = ((self.padding[1] + 1) // 2, self.padding[1] // 2,
-                                (self.padding[0] + 1) // 2, self.padding[0] // 2)
-            return F.conv2d(F.pad(input, expanded_padding, mode='circular'),
-                            self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,
-                            _pair(0), self.dilation, self.groups)
-
-        return F.conv2d(input, self._parameter_dict['weight'], self._parameter_dict.get('bias'), self.stride,
-                        self.padding, self.dilation, self.groups)
+        return self._conv_forward(input, self._parameter_dict['weight'], self._parameter_dict.get('bias'))
 
 
 class SNN_GroupNorm(nn.GroupNorm,RemoveParameters):
-- 
2.43.0


From 1bee8a1f8eb36318c9ed99160b4d0b437a594206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:05 +0000
Subject: [PATCH 22/43] fix: adjoint integration gives gradients of externally
 managed parameters

---
 neuro_shooting/generic_integrator.py  | 6 +++++-
 neuro_shooting/shooting_integrands.py | 9 +++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/generic_integrator.py b/neuro_shooting/generic_integrator.py
index 8aded17..dccaa8c 100644
--- a/neuro_shooting/generic_integrator.py
+++ b/neuro_shooting/generic_integrator.py
@@ -107,7 +107,11 @@ class GenericIntegrator(object):
     def _integrate_odeint(self,func,x0,t):
         if self.use_adjoint_integration:
             # odeint(func, y0, t, rtol=1e-7, atol=1e-9, method=None, options=None)
-            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,**self.kwargs)
+            kwargs = dict(self.kwargs)
+            if 'adjoint_params' not in kwargs and hasattr(func,'get_externally_managed_parameters'):
+                # these are not parameters of the integrand itself, but they also need gradients
+                kwargs['adjoint_params'] = tuple(func.parameters()) + tuple(func.get_externally_managed_parameters())
+            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,**kwargs)
             return res
         else:
             # odeint(func, y0, t, rtol=1e-7, atol=1e-9, method=None, options=None)
diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index f4ade36..097b6d9 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -106,6 +106,15 @@ class ShootingIntegrandBase(nn.Module):
         self.use_rnn_mode = True
         self._externally_managed_rnn_parameters = True
 
+    def get_externally_managed_parameters(self):
+        """
+        Returns a list with all the externally managed parameters (they are not parameters of this module, but the evolution depends on them)
+        """
+        if self._rnn_parameter_func is None:
+            return []
+        return [par for parameter_objects in self._rnn_parameter_func.get_time_parameter_list()
+                for o in parameter_objects for par in parameter_objects[o].get_parameter_dict().values()]
+
     def set_data_concatenation_dim(self,data_concatenation_dim):
         self.data_concatenation_dim = data_concatenation_dim
 
-- 
2.43.0


From dbf073657b68d9dc5daa15fc12c4f8441d51bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:37 +0000
Subject: [PATCH 23/43] fix: up-down convolution model uses its predicted data
 initial condition

---
 neuro_shooting/shooting_models.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 7a1afdd..dd56bde 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -2107,7 +2107,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
                 # self.init_l1 = nn.Linear(2, 10)
                 # TODO: shouldn't hard code this
                 self.init_l1 = nn.Conv2d(particle_dimension, particle_dimension*inflation_factor,kernel_size = 1)
-                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 2)
+                self.init_l2 = nn.Conv2d(particle_dimension*inflation_factor, particle_dimension*inflation_factor,kernel_size = 1)
 
             else:
                 raise ValueError(
@@ -2173,8 +2173,7 @@ class AutoShootingIntegrandModelUpDownConv2D(shooting.ShootingLinearInParameterC
             #     data_dict['q2'] = data_q20_replicated
             if self.optimize_over_data_initial_conditions_type.lower() == 'linear':
                 q20 = self.simple_init(x)
-                #data_dict['q2'] = q20
-                data_dict['q2'] = x
+                data_dict['q2'] = q20
             elif self.optimize_over_data_initial_conditions_type.lower() == 'mini_nn':
                 # predict the initial condition based on a simple neural network
                 q20 = self.init_l2(self.nl(self.init_l1(x)))
-- 
2.43.0


From 84978174d84924fa8da194512858dbb036d8f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:04 +0000
Subject: [PATCH 24/43] fix: determine the data concatenation dimension on
 every pass, also for pass-through blocks

The data can have extra leading dimensions; the analytic costate evolution splits along the state's dimension.
---
 neuro_shooting/shooting_blocks.py     | 8 +++++---
 neuro_shooting/shooting_integrands.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/shooting_blocks.py b/neuro_shooting/shooting_blocks.py
index 85e112f..e8ea034 100644
--- a/neuro_shooting/shooting_blocks.py
+++ b/neuro_shooting/shooting_blocks.py
@@ -476,14 +476,16 @@ class ShootingBlockBase(nn.Module):
             generic_dict_of_dicts=pass_through_costate_dict_of_dicts,
             generic_dict_block_name=self._block_name)
 
-        if zero_pad_new_data_states and self._state_parameter_dict is not None:
-
-            data_concatenation_dim = scd_utils.get_data_concatenation_dim(state_dict=self._state_parameter_dict,
+        if len(state_dicts) > 0:
+            # the data can have additional leading dimensions (also if there is nothing to pad, e.g., for a pass-through block)
+            data_concatenation_dim = scd_utils.get_data_concatenation_dim(state_dict=next(iter(state_dicts.values())),
                                                                           data_dict_of_dicts=data_dict_of_dicts,
                                                                           state_concatenation_dim=self.shooting_integrand.concatenation_dim)
 
             self.shooting_integrand.set_data_concatenation_dim(data_concatenation_dim=data_concatenation_dim)
 
+        if zero_pad_new_data_states and self._state_parameter_dict is not None:
+
             padded_zeros = scd_utils._get_zero_data_dict_matching_state_dim(state_dict=self._state_parameter_dict,
                                                                             data_dict_of_dicts=data_dict_of_dicts,
                                                                             state_concatenation_dim=self.shooting_integrand.concatenation_dim,
diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 097b6d9..d8ddbdf 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -692,7 +692,7 @@ class ShootingIntegrandBase(nn.Module):
         dot_costate_dict_of_dicts = self.optional_rhs_advect_costate_dict_of_dicts_analytic(t=t, state_dict_of_dicts=state_dict_of_dicts,
                                                                                             costate_dict_of_dicts=costate_dict_of_dicts,
                                                                                             parameter_objects=parameter_objects,
-                                                                                            concatenation_dim=self.data_concatenation_dim)
+                                                                                            concatenation_dim=self.concatenation_dim)
 
         return dot_state_dict_of_dicts, dot_costate_dict_of_dicts, dot_data_dict_of_dicts, parameter_objects
 
-- 
2.43.0


From 7c92e08558f0f2cdf59b54d4ac44de3a27d87afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:39 +0000
Subject: [PATCH 25/43] fix: recording hook keeps copies of externally managed
 parameters

---
 neuro_shooting/shooting_hooks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/shooting_hooks.py b/neuro_shooting/shooting_hooks.py
index 203d9eb..20a0704 100644
--- a/neuro_shooting/shooting_hooks.py
+++ b/neuro_shooting/shooting_hooks.py
@@ -6,7 +6,7 @@ def record_generic_dict_of_dicts(custom_hook_data, d, d_name):
         cur_block = d[block_name]
         for cur_state_name in cur_block:
             cur_key = '{}.{}.{}'.format(block_name, d_name, cur_state_name)
-            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy())
+            custom_hook_data[cur_key].append(cur_block[cur_state_name].detach().cpu().numpy().copy())
 
 def compute_parameter_norms(parameter_objects):
 
@@ -66,7 +66,8 @@ def parameter_evolution_hook(module, t, state_dicts, costate_dicts, data_dict_of
             cur_par_dict = parameter_objects[k].get_parameter_dict()
             for p in cur_par_dict:
                 cur_key = '{}.{}'.format(k, p)
-                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy())
+                # copy, as externally managed parameters are changed in place during the optimization
+                custom_hook_data[cur_key].append(cur_par_dict[p].detach().cpu().numpy().copy())
                 # add to current energy
                 current_energy += 0.5 * torch.sum(cur_par_dict[p] ** 2)
 
-- 
2.43.0


From a61dca6ef46d04d85876579ac34e967aef420e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:50 +0000
Subject: [PATCH 26/43] fix: plateau scheduler keeps metric values, not
 references to tensors

---
 neuro_shooting/custom_lr_scheduler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neuro_shooting/custom_lr_scheduler.py b/neuro_shooting/custom_lr_scheduler.py
index f2cce03..833469b 100644
--- a/neuro_shooting/custom_lr_scheduler.py
+++ b/neuro_shooting/custom_lr_scheduler.py
@@ -106,8 +106,9 @@ class CustomReduceLROnPlateau(object):
         self.num_bad_epochs = 0
 
     def step(self, metrics, epoch=None):
-        self.current = metrics
-        current = metrics
+        # keep the value itself, a tensor holding the metric may be updated in place later on
+        current = float(metrics)
+        self.current = current
         if epoch is None:
             epoch = self.last_epoch = self.last_epoch + 1
         self.last_epoch = epoch
-- 
2.43.0


From acfb1ad3aa9e007bdfd8198ae9a1a8fcf83fd0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:40 +0000
Subject: [PATCH 27/43] fix: sweeping an empty table gives a list with the one
 empty combination

---
 neuro_shooting/command_line_execution_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 99202dd..7f09827 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -17,7 +17,7 @@ def recursively_sweep_parameters(pars_to_sweep,par_dict=None,swept_parameter_lis
     if len(cur_keys)==0:
         #print('pars: {}'.format(par_dict))
         swept_parameter_list.append(copy.deepcopy(par_dict))
-        return par_dict
+        return swept_parameter_list
 
     first_key = cur_keys[0]
     # sweep over it
-- 
2.43.0


From 6c51971198a91a3ac3de8353bef31a2041087e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 28/43] fix: experiments run with the requested python
 interpreter

---
 neuro_shooting/command_line_execution_tools.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 7f09827..a6c0cf3 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -38,10 +38,8 @@ def run_command_with_args(python_script,run_args,path_to_python,cuda_visible_dev
     cmd_arg_list = _make_arg_list(run_args)
     current_python_script = python_script
 
-    pre_command = 'alias python="{}"'.format(path_to_python) #'conda activate {}'.format(conda_environment)
-
-    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices,pre_command=pre_command)
-    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file)
+    entire_pre_command = get_bash_precommand(cuda_visible_devices=cuda_visible_devices)
+    execute_python_script_via_bash(current_python_script, cmd_arg_list, pre_command=entire_pre_command, log_file=log_file, path_to_python=path_to_python)
 
 
 def _make_arg_list(args):
@@ -128,9 +126,10 @@ def execute_command( command, arguments_as_list, verbose=True ):
     command_list.append( el )
   subprocess.call( command_list )
 
-def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None ):
+def execute_python_script_via_bash( python_script, arguments_as_list, pre_command=None, log_file=None, path_to_python=None ):
 
-  str = get_string_argument_from_list(['python'] + [python_script] + arguments_as_list)
+  # call the interpreter by its path, as bash does not expand aliases when it is not interactive
+  str = get_string_argument_from_list([path_to_python or 'python'] + [python_script] + arguments_as_list)
   if pre_command is not None and log_file is not None:
     bash_command = 'bash -c "{:s} {:s} > >(tee {:s}) 2>&1"'.format(pre_command,str,log_file)
   elif pre_command is not None and log_file is None:
-- 
2.43.0


From 3f1d99bef83d2e2c52bef3659c975c156be3fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 29/43] fix: a swept flag that is off is omitted even if the
 template sets it

---
 neuro_shooting/experiment_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index bb51f74..93fa4d4 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -77,6 +77,8 @@ def merge_args(run_args_template,add_args):
         if (v is True) or (v is False): # check if v is binary
             if v:
                 merged_args[k] = None # just add the flag
+            else:
+                merged_args.pop(k, None) # make sure a flag of the template is omitted
         else:
             merged_args[k] = v
 
-- 
2.43.0


From 12281586b6bbf3555f3d709a2b7d77daf0dfaf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:23 +0000
Subject: [PATCH 30/43] fix: results are found in directories whose names
 contain glob characters

---
 neuro_shooting/experiment_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/experiment_utils.py b/neuro_shooting/experiment_utils.py
index 93fa4d4..54a23e0 100644
--- a/neuro_shooting/experiment_utils.py
+++ b/neuro_shooting/experiment_utils.py
@@ -131,7 +131,7 @@ def sweep_parameters(args,run_args_to_sweep,run_args_template,python_script='sim
             run_args['seed'] = seed
 
             # check if it already contains an output pt file. If so ignore.
-            pt_files = glob.glob(os.path.join(output_directory, '*.pt'), recursive=False)
+            pt_files = glob.glob(os.path.join(glob.escape(output_directory), '*.pt'), recursive=False)
             if (len(pt_files)>0) and do_not_recompute:
                 print('Found the following pt files {} in {}. SKIPPING.\n'.format(pt_files,output_directory))
             else:
-- 
2.43.0


From 9e459f323b0953400a2ba359082a39f37bd24588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:16 +0000
Subject: [PATCH 31/43] fix: adding nothing to an empty configuration string

---
 neuro_shooting/command_line_execution_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index a6c0cf3..99e37c5 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -93,11 +93,11 @@ def _escape_semicolons(s):
         return ret
 
 def add_to_config_string(cs,cs_to_add):
-    if (cs is None) or (cs==''):
+    if cs_to_add is None:
+        ret = cs
+    elif (cs is None) or (cs==''):
         # we need to check if there are semicolons in the string to add, if so, these need to be escaped
         ret = _escape_semicolons(cs_to_add)
-    elif cs_to_add is None:
-        ret = cs
     else:
         cs_to_add_escaped = _escape_semicolons(cs_to_add)
         ret = cs + '\\;' + cs_to_add_escaped
-- 
2.43.0


From 00bdfe908617a9a642ae5acc4e7b6a33e794c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:16 +0000
Subject: [PATCH 32/43] fix: call_python_script splits the output as text

---
 neuro_shooting/command_line_execution_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/command_line_execution_tools.py b/neuro_shooting/command_line_execution_tools.py
index 99e37c5..dfea088 100644
--- a/neuro_shooting/command_line_execution_tools.py
+++ b/neuro_shooting/command_line_execution_tools.py
@@ -145,7 +145,7 @@ def execute_python_script_via_bash( python_script, arguments_as_list, pre_comman
 
 def call_python_script( cmd ):
   cmd_full = 'python ' + cmd
-  p = subprocess.Popen(cmd_full, stdout=subprocess.PIPE, shell=True)
+  p = subprocess.Popen(cmd_full, stdout=subprocess.PIPE, shell=True, universal_newlines=True)
   out, err = p.communicate()
   result = out.split('\n')
   for lin in result:
-- 
2.43.0


From f6f0f1fed6f525760839b8d9092c30dd6cdb9ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:20 +0000
Subject: [PATCH 33/43] fix: costate scaling uses the number of particles that
 are there

compute_reduced_lagrangian scaled the Lagrangian, whose potential is averaged over
the actual particles, by the configured number of particles. A pass-through block
configured with another number (the default, or None) scaled the costate
derivatives wrongly or failed.
---
 neuro_shooting/shooting_integrands.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index d8ddbdf..97a7c62 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -402,7 +402,11 @@ class ShootingIntegrandBase(nn.Module):
         if (not self.use_rnn_mode) and (self._externally_managed_rnn_parameters is None):
             del parameter_objects
 
-        return self.nr_of_particles * lagrangian,self.nr_of_particles * kinetic_energy, self.nr_of_particles *potential_energy
+        # the potential energy averages over the particles which are actually there; these may have been passed through
+        # from another block, in which case their number is not self.nr_of_particles
+        nr_of_particles = next(iter(next(iter(state_dict_of_dicts.values())).values())).shape[0]
+
+        return nr_of_particles * lagrangian, nr_of_particles * kinetic_energy, nr_of_particles * potential_energy
 
     def compute_lagrangian(self, t, state_dict_of_dicts, costate_dict_of_dicts, parameter_objects):
         """
-- 
2.43.0


From 9e755e32f3c910d80cc079564637d0ee3ab84d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:31 +0000
Subject: [PATCH 34/43] fix: analytic equations use the number of particles
 that are there

The analytic parameters and costate equations of the simple models looped over the
configured number of particles, which is wrong for a pass-through block that was
configured with another number than the particles it receives.
---
 neuro_shooting/shooting_models.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index dd56bde..52a510e 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1019,7 +1019,7 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(qi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q1'] = dot_pt
@@ -1040,7 +1040,7 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(qi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q2'] = dot_pt
@@ -1077,10 +1077,10 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(qi.shape[0]):
             At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
+        At = 1 / qi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / qi.shape[0] * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l1'].get_parameter_dict()
@@ -1096,10 +1096,10 @@ class DEBUGAutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVe
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(qi.shape[0]):
             At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
+        At = 1 / qi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / qi.shape[0] * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict = p['l2'].get_parameter_dict()
@@ -1207,7 +1207,7 @@ class AutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVectorI
 
         # now we can also compute the rhs of the costate (based on the manually computed shooting equations)
         dot_pt = torch.zeros_like(pi)
-        for i in range(self.nr_of_particles):
+        for i in range(qi.shape[0]):
             dot_pt[i, ...] = -self.dnl(qi[i, ...]) * torch.matmul(pi[i, ...], A)
 
         rhs['dot_p_q1'] = dot_pt
@@ -1242,10 +1242,10 @@ class AutoShootingIntegrandModelSimple(shooting.ShootingLinearInParameterVectorI
 
         # particles are saved as rows
         At = torch.zeros(self.in_features, self.in_features, device=device, dtype=dtype)
-        for i in range(self.nr_of_particles):
+        for i in range(qi.shape[0]):
             At = At + torch.matmul(pi[i, ...].t(), self.nl(qi[i, ...])).t()
-        At = 1 / self.nr_of_particles * At  # because of the mean in the Lagrangian multiplier
-        bt = 1 / self.nr_of_particles * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
+        At = 1 / qi.shape[0] * At  # because of the mean in the Lagrangian multiplier
+        bt = 1 / qi.shape[0] * pi.sum(dim=0).sum(dim=0)  # -\sum_i q_i
 
         # results need to be written in the respective parameter variables
         par_dict['weight'] = utils.divide_by_if_not_none(At.t(),weight_dict['weight'])
-- 
2.43.0


From 1075bba79d4ba30a429b866c3fd36f3ae0be7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:13 +0000
Subject: [PATCH 35/43] fix: symmetrized analytic solution uses the weight of
 l3 for l3

---
 neuro_shooting/shooting_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/shooting_models.py b/neuro_shooting/shooting_models.py
index 52a510e..f48e6e9 100644
--- a/neuro_shooting/shooting_models.py
+++ b/neuro_shooting/shooting_models.py
@@ -1831,7 +1831,7 @@ class AutoShootingIntegrandModelUpdownSymmetrized(shooting.ShootingLinearInParam
 
         par_dict3 = p['l3'].get_parameter_dict()
         weight_dict3 = p['l3'].get_parameter_weight_dict()
-        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict['weight'])
+        par_dict3['weight'] = utils.divide_by_if_not_none(l3,weight_dict3['weight'])
         par_dict3['bias'] = utils.divide_by_if_not_none(torch.mean(p3i, dim=0).sum(dim=0),weight_dict3['bias'])
         return p
 
-- 
2.43.0


From 8b3b2cae60f10a3c445a00309c48ad54238b78ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:50 +0000
Subject: [PATCH 36/43] fix: blocks can be copied after a forward pass

---
 neuro_shooting/shooting_integrands.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/neuro_shooting/shooting_integrands.py b/neuro_shooting/shooting_integrands.py
index 97a7c62..2dc87ce 100644
--- a/neuro_shooting/shooting_integrands.py
+++ b/neuro_shooting/shooting_integrands.py
@@ -101,6 +101,13 @@ class ShootingIntegrandBase(nn.Module):
         if not self._externally_managed_rnn_parameters:
             self._rnn_parameters = None
 
+    def __getstate__(self):
+        # the values kept from the last forward pass belong to its autograd graph; they are not part of the model (and cannot be copied)
+        state = self.__dict__.copy()
+        state['current_norm_penalty'] = None
+        state['_rnn_parameters'] = None
+        return state
+
     def set_externally_managed_rnn_parameter_func(self,rnn_parameter_func):
         self._rnn_parameter_func = rnn_parameter_func
         self.use_rnn_mode = True
-- 
2.43.0


From 5c29568fa4837cea368eeac688a56b38fe9055c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 37/43] fix: augmented CIFAR images keep their size (crops used
 the size of MNIST images)

---
 neuro_shooting/data_loaders.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neuro_shooting/data_loaders.py b/neuro_shooting/data_loaders.py
index 544e24f..ccb78e6 100644
--- a/neuro_shooting/data_loaders.py
+++ b/neuro_shooting/data_loaders.py
@@ -11,12 +11,16 @@ def get_data_loaders(dataset, data_aug=False, batch_size=128, test_batch_size=10
                                 'CIFAR10': 10,
                                 'CIFAR100': 100}
 
+    image_size_per_dataset = {'MNIST': 28,
+                              'CIFAR10': 32,
+                              'CIFAR100': 32}
+
     if dataset not in supported_datasets:
         raise ValueError('Currently supported datasets {}'.format(supported_datasets))
 
     if data_aug:
         transform_train = transforms.Compose([
-            transforms.RandomCrop(28, padding=4),
+            transforms.RandomCrop(image_size_per_dataset[dataset], padding=4),
             transforms.ToTensor(),
         ])
     else:
-- 
2.43.0


From d406b82e5594cd60bd272ac31ffdebe3555cca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 38/43] fix: pgf preamble as a string (matplotlib no longer
 accepts a list)

---
 neuro_shooting/figure_settings.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/neuro_shooting/figure_settings.py b/neuro_shooting/figure_settings.py
index 092ea9f..73e5d58 100644
--- a/neuro_shooting/figure_settings.py
+++ b/neuro_shooting/figure_settings.py
@@ -13,10 +13,8 @@ def setup_pgf_plotting():
         'font.family': 'serif',
         'text.usetex': True,
         'pgf.rcfonts': False,
-        'pgf.preamble': [
-            '\\usepackage{amsmath}',  # load additional packages
-            '\\usepackage{amssymb}',  # load additional packages
-        ]
+        # load additional packages (needs to be a string; lists are no longer accepted by matplotlib)
+        'pgf.preamble': '\\usepackage{amsmath}\\usepackage{amssymb}'
     }
 
     previous_rcsettings = dict()
-- 
2.43.0


From 07869c977e0edc75f73aa8ac4a657088388cee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 39/43] fix: plot all recorded quantities also for blocks whose
 name starts like an excluded one

---
 neuro_shooting/vector_visualization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/neuro_shooting/vector_visualization.py b/neuro_shooting/vector_visualization.py
index f8cf200..e8a93e3 100644
--- a/neuro_shooting/vector_visualization.py
+++ b/neuro_shooting/vector_visualization.py
@@ -405,15 +405,16 @@ def _plot_temporal_data(data, block_name, args=None, visualize=True, print=False
     if visualize:
         plt.show()
 
-    # exclude list (what not to plot, partial initial match is fine)
-    do_not_plot = ['t', 'energy', 'dot_state','dot_costate','dot_data']
+    # exclude lists (what not to plot): general quantities and the derivatives of the block
+    do_not_plot = ['t', 'energy']
+    do_not_plot_of_block = ['dot_state','dot_costate','dot_data']
 
     for k in data:
 
         # first check if we should plot this
-        do_plotting = True
-        for dnp in do_not_plot:
-            if k.startswith(dnp) or k.startswith('{}.{}'.format(block_name,dnp)):
+        do_plotting = k not in do_not_plot
+        for dnp in do_not_plot_of_block:
+            if k.startswith('{}.{}.'.format(block_name,dnp)):
                 do_plotting = False
 
         if do_plotting:
-- 
2.43.0


From 7804b77d419e0067f05d3d743d80a562283f778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 40/43] fix: visualize_time_evolution displays at most
 max_display figures

---
 neuro_shooting/vector_visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neuro_shooting/vector_visualization.py b/neuro_shooting/vector_visualization.py
index e8a93e3..4f59f81 100644
--- a/neuro_shooting/vector_visualization.py
+++ b/neuro_shooting/vector_visualization.py
@@ -273,7 +273,7 @@ def visualize_time_evolution(val_y, data,block_name, max_display=10, save_to_dir
             plt.close()
         else:
             plt.show()
-            if itr>=max_display:
+            if itr+1>=max_display:
                 print('Reached maximum number of figure to display on screen: {}'.format(max_display))
                 break
 
-- 
2.43.0


From 5881e083cde9bba8af74e3845b4c3d7f215e60a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 41/43] fix: visualization also works for models without a
 higher order state

---
 neuro_shooting/vector_visualization.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/neuro_shooting/vector_visualization.py b/neuro_shooting/vector_visualization.py
index 4f59f81..d0e7960 100644
--- a/neuro_shooting/vector_visualization.py
+++ b/neuro_shooting/vector_visualization.py
@@ -146,12 +146,13 @@ def _basic_visualize(shooting_block, val_y, val_pred_y, val_sim_time, train_y=No
         pars = shooting_block.state_dict()
         q1 = pars['q1'].detach().cpu().numpy()
         p_q1 = pars['p_q1'].detach().cpu().numpy()
-        q2 = pars['q2'].detach().cpu().numpy()
-        p_q2 = pars['p_q2'].detach().cpu().numpy()
 
         # now plot the information from the state variables
         plot_particles(q1=q1,p_q1=p_q1,ax=ax_lo)
-        plot_higher_order_state(q2=q2,p_q2=p_q2,ax=ax_ho)
+        if 'q2' in pars: # the simple model does not have a higher order state
+            q2 = pars['q2'].detach().cpu().numpy()
+            p_q2 = pars['p_q2'].detach().cpu().numpy()
+            plot_higher_order_state(q2=q2,p_q2=p_q2,ax=ax_ho)
 
     else:
 
@@ -228,11 +229,14 @@ def visualize_time_evolution(val_y, data,block_name, max_display=10, save_to_dir
 
     q1 = convert_list_of_np_arrays_into_np_array(data['{}.state.q1'.format(block_name)])
     p_q1 = convert_list_of_np_arrays_into_np_array(data['{}.costate.p_q1'.format(block_name)])
-    q2 = convert_list_of_np_arrays_into_np_array(data['{}.state.q2'.format(block_name)])
-    p_q2 = convert_list_of_np_arrays_into_np_array(data['{}.costate.p_q2'.format(block_name)])
+
+    # the simple model does not have a higher order state
+    has_q2 = '{}.state.q2'.format(block_name) in data
+    if has_q2:
+        q2 = convert_list_of_np_arrays_into_np_array(data['{}.state.q2'.format(block_name)])
+        p_q2 = convert_list_of_np_arrays_into_np_array(data['{}.costate.p_q2'.format(block_name)])
 
     data_q1 = convert_list_of_np_arrays_into_np_array(data['{}.data.q1'.format(block_name)])
-    data_q2 = convert_list_of_np_arrays_into_np_array(data['{}.data.q2'.format(block_name)])
 
     desired_to_time_pts = list(range(len(t)))
     step_size = 1
@@ -256,15 +260,14 @@ def visualize_time_evolution(val_y, data,block_name, max_display=10, save_to_dir
         current_data_q1 = data_q1[0:to_time_pt+1,...]
         current_q1 = q1[to_time_pt,...]
         current_p_q1 = p_q1[to_time_pt,...]
-        current_q2 = q2[to_time_pt,...]
-        current_p_q2 = p_q2[to_time_pt,...]
 
         # plot it without any additional information
         plot_trajectories(val_y, current_data_q1, itr='{:.2f}'.format(t[to_time_pt]), itr_name = 'time', ax=ax)
 
         # now plot the information from the state variables
         plot_particles(q1=current_q1, p_q1=current_p_q1, ax=ax_lo)
-        plot_higher_order_state(q2=current_q2, p_q2=current_p_q2, ax=ax_ho)
+        if has_q2:
+            plot_higher_order_state(q2=q2[to_time_pt,...], p_q2=p_q2[to_time_pt,...], ax=ax_ho)
 
         if save_to_directory is not None:
             current_filename = '{}-{:05d}.png'.format(file_prefix,itr)
-- 
2.43.0


From 717f45a85c62fda77734875ebf44bd144a9ea44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 42/43] fix: get_time_chunks refuses chunks of one time point
 (did not terminate)

---
 demos/neurips20/spiral.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/demos/neurips20/spiral.py b/demos/neurips20/spiral.py
index 5431c96..6122b02 100644
--- a/demos/neurips20/spiral.py
+++ b/demos/neurips20/spiral.py
@@ -381,6 +381,9 @@ def get_function_data_loaders(args, data_dict,
 def get_time_chunks(t, chunk_time, start_time_chunk_from_zero=True):
     time_chunks = []
 
+    if chunk_time==1:
+        raise ValueError('Chunks overlap by one time point and therefore need at least two; got chunk_time=1.')
+
     if chunk_time<=0:
         time_chunks.append(t)
     else:
-- 
2.43.0


From ae1b052a266741430fcf5ea2424b8b0462b92e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:36 +0000
Subject: [PATCH 43/43] fix: shooting autoencoders also work for a batch with
 one element

---
 demos/neurips20/autoencoder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/demos/neurips20/autoencoder.py b/demos/neurips20/autoencoder.py
index 78f1983..14c6878 100644
--- a/demos/neurips20/autoencoder.py
+++ b/demos/neurips20/autoencoder.py
@@ -76,7 +76,7 @@ class ShootingAE(nn.Module):
         enc = self.fc1(self.encoder(x))
         # forward through shooting block
         out,_,_,_ = self.blk(enc.unsqueeze(1))
-        out = out.squeeze().permute(1,0,2)
+        out = out.squeeze(2).permute(1,0,2)
         # N x T x shooting_dim
         s = out.contiguous().view(N*self.T,self.shooting_dim)
         # decode
@@ -166,7 +166,7 @@ class ShootingAEMasked(nn.Module):
         # (N, shooting_dim)
         out,_,_,_ = self.blk(enc.unsqueeze(1))
         # (T, N, 1, shooting_dim)
-        out = out.squeeze().permute(1,0,2)
+        out = out.squeeze(2).permute(1,0,2)
         # (N, T, shooting_dim)
 
         if use_mask:
-- 
2.43.0

