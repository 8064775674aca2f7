From d3b92b9e2ee88385b87974332895d31bfb5fe5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 01/11] fix: let FourVector be copied and unpickled

While an instance is being rebuilt (copy, deepcopy, pickle) its fields are not
set yet, so the attribute delegation to the 3-vector looked up 'q' through
itself and ended in a RecursionError. This also broke pickling of
GalileanTranslation and GalileanOperator, which hold a FourVector.
---
 src/coordinax/_src/vectors/d4/spacetime.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index bfe21a8..e0f933c 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -167,6 +167,11 @@ class FourVector(AbstractPos4D):
         Quantity['length'](Array(1., dtype=float32), unit='m')
 
         """
+        # `q` itself can be missing while an instance is being rebuilt, e.g. by
+        # `copy` or `pickle`. Looking it up would then recurse without end.
+        if name == "q":
+            msg = f"{type(self).__name__!r} object has no attribute {name!r}"
+            raise AttributeError(msg)
         return getattr(self.q, name)
 
     # -------------------------------------------
-- 
2.43.0


From 16eec4b637c64573e82ddb8063aaceec07d99305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 02/11] fix: reject impossible focal lengths in prolate
 spheroidal self-conversion

The lambda passed to jax.lax.cond was traced, so the run-time checks of the
new ProlateSpheroidalPos were dropped and Delta <= 0 gave an invalid vector.
It also failed when the new Delta had another unit.
---
 src/coordinax/_src/vectors/d3/transform.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index a34d35e..f0fdda8 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -6,7 +6,6 @@ __all__: list[str] = []
 from typing import Any
 
 import equinox as eqx
-import jax
 from plum import dispatch
 
 import quaxed.numpy as xp
@@ -764,15 +763,13 @@ def represent_as(
     Array(True, dtype=bool)
 
     """
-    Delta = kwargs.get("Delta", current.Delta)
-    return jax.lax.cond(
-        "Delta" in kwargs,
-        lambda Delta: represent_as(
-            represent_as(current, CylindricalPos), target, Delta=Delta
-        ),
-        lambda _: current,
-        Delta,
-    )
+    # Whether `Delta` was passed is known statically. Branching in Python keeps
+    # the run-time checks of the target, which `jax.lax.cond` would drop.
+    if "Delta" not in kwargs:
+        return current
+
+    cyl = represent_as(current, CylindricalPos)
+    return represent_as(cyl, target, Delta=kwargs["Delta"])
 
 
 @dispatch
-- 
2.43.0


From f0d73bf2490a31a2e87c0af58e0864dfcb5d5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 03/11] fix: annotate abs() of a vector with the quantities
 norms return

---
 src/coordinax/_src/vectors/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f45070a..2968938 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -620,7 +620,7 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
     # ---------------------------------------------------------------
     # methods
 
-    def __abs__(self) -> u.Quantity:
+    def __abs__(self) -> AbstractQuantity:
         """Return the norm of the vector.
 
         Examples
-- 
2.43.0


From a12dc5ccc5418e051e4079567d726321b8b19c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 04/11] fix: annotate the norm of an acceleration as an
 acceleration

---
 src/coordinax/_src/vectors/base/base_acc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base_acc.py b/src/coordinax/_src/vectors/base/base_acc.py
index 2d7394b..689f1ac 100644
--- a/src/coordinax/_src/vectors/base/base_acc.py
+++ b/src/coordinax/_src/vectors/base/base_acc.py
@@ -115,7 +115,7 @@ class AbstractAcc(AbstractVector):  # pylint: disable=abstract-method
     @partial(eqx.filter_jit, inline=True)
     def norm(
         self, velocity: AbstractVel, position: AbstractPos, /
-    ) -> u.Quantity["speed"]:
+    ) -> u.Quantity["acceleration"]:
         """Return the norm of the vector."""
         return self.represent_as(self._cartesian_cls, velocity, position).norm()
 
-- 
2.43.0


From 48ed00cdd56fa26fabb2556ff8b2a315c8bb855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 05/11] fix: annotate Space.asdict with the vectors it returns

---
 src/coordinax/_src/vectors/space/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 31e4b44..3219d04 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -437,8 +437,8 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
     def asdict(
         self,
         *,
-        dict_factory: Callable[[Any], Mapping[str, u.Quantity]] = dict,
-    ) -> Mapping[str, u.Quantity]:
+        dict_factory: Callable[[Any], Mapping[str, AbstractVector]] = dict,
+    ) -> Mapping[str, AbstractVector]:
         """Return the vector as a Mapping.
 
         Parameters
-- 
2.43.0


From 5156627cac5fcf6577cf8470829cbabde399a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:59 +0000
Subject: [PATCH 06/11] fix: simplifying two rotations keeps the order in which
 they act

---
 src/coordinax/_src/operators/galilean/rotation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 3c66d47..27378c8 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -432,8 +432,9 @@ def simplify_op(op1: GalileanRotation, op2: GalileanRotation) -> GalileanRotatio
     >>> op3
     GalileanRotation(rotation=f32[3,3])
 
-    >>> jnp.allclose(op3.rotation, op1.rotation @ op2.rotation)
+    >>> jnp.allclose(op3.rotation, op2.rotation @ op1.rotation)
     Array(True, dtype=bool)
 
     """
-    return GalileanRotation(rotation=op1.rotation @ op2.rotation)
+    # ``op1`` acts first
+    return GalileanRotation(rotation=op2.rotation @ op1.rotation)
-- 
2.43.0


From 3bb56be80f4d9b3da22f549ab564a67c05db74c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 07/11] fix: dividing a non-Cartesian position scales the
 position, not its angles

---
 src/coordinax/_src/vectors/base/base_pos.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 4326807..3281eec 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -214,6 +214,12 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     Quantity['length'](Array(0.5, dtype=float32), unit='m')
 
     """
+    # Only Cartesian components scale with the vector
+    cart_cls = lhs._cartesian_cls
+    if not isinstance(lhs, cart_cls):
+        cart = lhs.represent_as(cart_cls)
+        return jnp.divide(cart, rhs).represent_as(type(lhs))
+
     return replace(
         lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
     )
-- 
2.43.0


From bf19814f75ab6c6c3e86d84647b8580e7739ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:46 +0000
Subject: [PATCH 08/11] fix: composing an operator with a Pipe on its right

---
 src/coordinax/_src/operators/pipe.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index eee7760..172c8de 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -156,6 +156,22 @@ class Pipe(AbstractCompositeOperator):
         # Append single operators
         return replace(self, operators=(*self, other))
 
+    def __ror__(self, other: AbstractOperator) -> "Pipe":
+        """Compose with an operator that acts first.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+
+        >>> shift = cx.ops.GalileanSpatialTranslation.from_([1, 2, 3], "kpc")
+        >>> boost = cx.ops.GalileanBoost.from_([1, 2, 3], "km/s")
+
+        >>> shift | cx.ops.Pipe((boost,))
+        Pipe(( GalileanSpatialTranslation(...), GalileanBoost(...) ))
+
+        """
+        return replace(self, operators=(other, *self))
+
     def __repr__(self) -> str:
         ops = repr(self.operators)
         if "\n" in ops:
-- 
2.43.0


From 969333bab89a804638831726281c983fb8b27020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:29 +0000
Subject: [PATCH 09/11] fix: give CartesianVel2D a norm, so velocities in two
 dimensions have one

---
 src/coordinax/_src/vectors/d2/cartesian.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 5b097ba..17e64b7 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -185,6 +185,20 @@ class CartesianVel2D(AvalMixin, AbstractVel2D):
     def differential_cls(cls) -> type["CartesianAcc2D"]:
         return CartesianAcc2D
 
+    @partial(eqx.filter_jit, inline=True)
+    def norm(self, _: AbstractPos2D | None = None, /) -> ct.BatchableSpeed:
+        """Return the norm of the vector.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> v = cx.vecs.CartesianVel2D.from_([3, 4], "km/s")
+        >>> v.norm()
+        Quantity['speed'](Array(5., dtype=float32), unit='km / s')
+
+        """
+        return jnp.sqrt(self.d_x**2 + self.d_y**2)
+
 
 # -----------------------------------------------------
 
-- 
2.43.0


From dc29b2ca0219f9aa636b1c3de11a641d38340588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:03 +0000
Subject: [PATCH 10/11] fix: let objects rebuilt by JAX be pickled

When JAX rebuilds an equinox module from its leaves (after jit, vmap, or any
primitive applied leaf by leaf, such as negation) the instance also receives
copies of class attributes like __annotations__. The jaxtyping annotations in
there cannot be pickled, so pickling e.g. -vec raised PicklingError.
---
 src/coordinax/_src/distances/base.py    |  4 +++-
 src/coordinax/_src/frames/base.py       |  3 ++-
 src/coordinax/_src/operators/base.py    |  3 ++-
 src/coordinax/_src/utils.py             | 18 ++++++++++++++++--
 src/coordinax/_src/vectors/base/base.py |  4 ++--
 5 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/coordinax/_src/distances/base.py b/src/coordinax/_src/distances/base.py
index 65d274b..2abeb4f 100644
--- a/src/coordinax/_src/distances/base.py
+++ b/src/coordinax/_src/distances/base.py
@@ -6,8 +6,10 @@ from abc import abstractmethod
 
 from unxt.quantity import AbstractQuantity
 
+from coordinax._src.utils import PicklableFieldsMixin
 
-class AbstractDistance(AbstractQuantity):  # type: ignore[misc]
+
+class AbstractDistance(PicklableFieldsMixin, AbstractQuantity):  # type: ignore[misc]
     """Distance quantities."""
 
     @property
diff --git a/src/coordinax/_src/frames/base.py b/src/coordinax/_src/frames/base.py
index 44a62ae..a31cf73 100644
--- a/src/coordinax/_src/frames/base.py
+++ b/src/coordinax/_src/frames/base.py
@@ -11,9 +11,10 @@ from plum import dispatch
 
 from .api import frame_transform_op
 from coordinax._src.operators import AbstractOperator
+from coordinax._src.utils import PicklableFieldsMixin
 
 
-class AbstractReferenceFrame(eqx.Module):  # type: ignore[misc]
+class AbstractReferenceFrame(PicklableFieldsMixin, eqx.Module):  # type: ignore[misc]
     """Base class for all reference frames."""
 
     # ---------------------------------------------------------------
diff --git a/src/coordinax/_src/operators/base.py b/src/coordinax/_src/operators/base.py
index 3e4a844..2dfd51c 100644
--- a/src/coordinax/_src/operators/base.py
+++ b/src/coordinax/_src/operators/base.py
@@ -15,13 +15,14 @@ import unxt as u
 from dataclassish import field_items, flags
 
 from .api import simplify_op
+from coordinax._src.utils import PicklableFieldsMixin
 from coordinax._src.vectors.base import AbstractPos
 
 if TYPE_CHECKING:
     from coordinax.ops import Pipe
 
 
-class AbstractOperator(eqx.Module):  # type: ignore[misc]
+class AbstractOperator(PicklableFieldsMixin, eqx.Module):  # type: ignore[misc]
     """Abstract base class for operators on coordinates and potentials.
 
     An operator is an object that defines a transformation on coordinates. It
diff --git a/src/coordinax/_src/utils.py b/src/coordinax/_src/utils.py
index 7cb38d8..20c39ae 100644
--- a/src/coordinax/_src/utils.py
+++ b/src/coordinax/_src/utils.py
@@ -3,14 +3,28 @@
 __all__: list[str] = []
 
 from collections.abc import Callable
-from dataclasses import dataclass
-from typing import Annotated as Ann, Generic, TypeVar
+from dataclasses import dataclass, fields
+from typing import Annotated as Ann, Any, Generic, TypeVar
 from typing_extensions import Doc
 
 GetterRetT = TypeVar("GetterRetT")
 EnclosingT = TypeVar("EnclosingT")
 
 
+class PicklableFieldsMixin:
+    """Pickle (and copy) only the fields of a dataclass.
+
+    When JAX rebuilds an `equinox.Module` from its leaves the instance also gets
+    copies of class attributes, like ``__annotations__``. These can hold
+    `jaxtyping` annotations, which cannot be pickled.
+
+    """
+
+    def __getstate__(self) -> dict[str, Any]:
+        """Return the state of the object: the values of its fields."""
+        return {f.name: getattr(self, f.name) for f in fields(self)}  # type: ignore[arg-type]
+
+
 @dataclass(frozen=True)
 class ClassPropertyDescriptor(Generic[EnclosingT, GetterRetT]):
     """Descriptor for class properties.
diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 2968938..651e9a1 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -29,7 +29,7 @@ from unxt.quantity import AbstractQuantity
 from .flags import AttrFilter
 from .mixins import IPythonReprMixin
 from coordinax._src.typing import Unit
-from coordinax._src.utils import classproperty
+from coordinax._src.utils import PicklableFieldsMixin, classproperty
 from coordinax._src.vectors.api import represent_as
 from coordinax._src.vectors.utils import full_shaped
 
@@ -49,7 +49,7 @@ class ToUnitsOptions(Enum):
 # ===================================================================
 
 
-class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
+class AbstractVector(PicklableFieldsMixin, IPythonReprMixin, ArrayValue):  # type: ignore[misc]
     """Base class for all vector types.
 
     A vector is a collection of components that can be represented in different
-- 
2.43.0


From 9b4fed93382b89cc20fbc0a7326a81c22ee9505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:07 +0000
Subject: [PATCH 11/11] fix: importing inside a traced function left the
 library's constants as tracers

The module-level constants (class defaults, bounds, pi factors) are created
on import. When the first import happened while JAX traced a function, as with
a local import in a jitted function, they became tracers of that function and
the library failed with UnexpectedTracerError from then on. Evaluate them
eagerly.
---
 src/coordinax/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/__init__.py b/src/coordinax/__init__.py
index 32ca2ec..22f298a 100644
--- a/src/coordinax/__init__.py
+++ b/src/coordinax/__init__.py
@@ -4,11 +4,17 @@ coordinax: Vectors in JAX
 """
 # pylint: disable=import-error
 
+from jax import ensure_compile_time_eval
 from jaxtyping import install_import_hook
 
 from .setup_package import RUNTIME_TYPECHECKER
 
-with install_import_hook("coordinax", RUNTIME_TYPECHECKER):
+# The first import may happen while JAX is tracing a function. The constants the
+# modules define must then be arrays, not tracers of that function.
+with (
+    install_import_hook("coordinax", RUNTIME_TYPECHECKER),
+    ensure_compile_time_eval(),
+):
     from . import angle, distance, frames, ops, vecs
     from ._version import version as __version__  # noqa: F401
     from .distance import Distance
@@ -47,4 +53,4 @@ __all__ = [
 
 
 # Cleanup
-del RUNTIME_TYPECHECKER, _interop
+del RUNTIME_TYPECHECKER, _interop, ensure_compile_time_eval
-- 
2.43.0

