From a0d48bd05948489dfddc0376e41f6d594ed3382f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 01/32] fix: compare list lengths by value, not identity

verify_list_len used 'is not', so lists longer than 256 elements were always
rejected (e.g. writing 300 displaced structures).
---
 ramannoodle/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/exceptions.py b/ramannoodle/exceptions.py
index a900de9..a18b272 100644
--- a/ramannoodle/exceptions.py
+++ b/ramannoodle/exceptions.py
@@ -119,8 +119,8 @@ def verify_list_len(name: str, array: list[Any], length: int | None) -> None:
     """
     if not isinstance(array, list):
         raise get_type_error(name, array, "list")
-    if length is not None and len(array) is not length:
-        raise ValueError(f"{name} has wrong length: {len(array)} != length")
+    if length is not None and len(array) != length:
+        raise ValueError(f"{name} has wrong length: {len(array)} != {length}")
 
 
 def verify_positions(name: str, array: NDArray[Any]) -> None:
-- 
2.43.0


From a82e9db9343d24b4bf0deedf8ac24531937d3831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 02/32] fix: do not hand out internal arrays of Raman spectra

MDRamanSpectrum.polarizability_ts is documented to return a copy, and the
wavenumbers returned by PhononRamanSpectrum.measure aliased the spectrum.
---
 ramannoodle/spectrum/_raman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 8066e47..6b2f51a 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -191,7 +191,7 @@ class PhononRamanSpectrum(RamanSpectrum):
                 self._phonon_wavenumbers, temperature
             )
 
-        return self._phonon_wavenumbers, intensities
+        return self._phonon_wavenumbers.copy(), intensities
 
 
 class MDRamanSpectrum(RamanSpectrum):
@@ -224,7 +224,7 @@ class MDRamanSpectrum(RamanSpectrum):
         :
             Array with shape (S,3,3) where S is the number of configurations.
         """
-        return self._polarizability_ts
+        return self._polarizability_ts.copy()
 
     @property
     def timestep(self) -> float:
-- 
2.43.0


From 60252ef04c73238d6a0bdd9da0dc11898adafcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:03 +0000
Subject: [PATCH 03/32] fix: keep the sign of imaginary modes read from
 vasprun.xml

The sign of each eigenvalue was taken after its absolute value, so imaginary
modes were returned as ordinary positive wavenumbers (OUTCAR reader returns
them as negative).
---
 ramannoodle/io/vasp/vasprun.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 5559f8c..3ab4e7a 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -343,9 +343,11 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
     eigenvalues = np.array([float(i) for i in element.text.split()])
-    eigenvalues = np.sqrt(np.abs(-eigenvalues)) * 1 / 0.0299792458
-    eigenvalues *= np.sign(eigenvalues)
-    return eigenvalues
+    # Eigenvalues are -frequency^2, so positive eigenvalues are imaginary modes. As is
+    # convention, these are represented by negative wavenumbers.
+    wavenumbers = np.sqrt(np.abs(eigenvalues)) * 1 / 0.0299792458
+    wavenumbers *= np.sign(-eigenvalues)
+    return wavenumbers
 
 
 def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
-- 
2.43.0


From 3f6b879411fdf54ff7efb5556eabc5348857d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 04/32] fix: scale Cartesian POSCAR coordinates and support
 volume scaling

The universal scale factor was applied to the lattice vectors only, so the
fractional positions of a Cartesian POSCAR were wrong unless the factor was 1;
a negative factor (the cell volume) inverted the lattice.
---
 ramannoodle/io/vasp/poscar.py  | 42 ++++++++++++++++++++++++----------
 ramannoodle/io/vasp/xdatcar.py |  8 ++++---
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index 24b1ff0..bdb025a 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -15,8 +15,13 @@ from ramannoodle.io.vasp.outcar import _get_lattice_vector_from_outcar_line
 # pylint: disable=R0801
 
 
-def _read_lattice(file: TextIO) -> NDArray[np.float64]:
-    """Read all three lattice vectors (in angstroms) from a VASP POSCAR file.
+def _read_lattice_and_scale_factor(
+    file: TextIO,
+) -> tuple[NDArray[np.float64], float]:
+    """Read lattice vectors (in angstroms) and scale factor from a VASP POSCAR file.
+
+    The lattice vectors are already scaled. A negative scale factor in the file gives
+    the cell volume, in which case the corresponding scale factor is returned.
 
     Raises
     ------
@@ -40,7 +45,12 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
             raise InvalidFileException(f"lattice could not be parsed: {line}")
         lattice.append(vector)
 
-    return np.array(lattice) * scale_factor
+    if scale_factor < 0:
+        volume = abs(np.linalg.det(np.array(lattice)))
+        if volume == 0:
+            raise InvalidFileException("lattice vectors are not independent")
+        scale_factor = float(np.cbrt(-scale_factor / volume))
+    return np.array(lattice) * scale_factor, scale_factor
 
 
 def _read_atomic_symbols(file: TextIO) -> list[str]:
@@ -80,9 +90,11 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
 
 
 def _read_positions(
-    file: TextIO, lattice: NDArray[np.float64], num_atoms: int
+    file: TextIO, lattice: NDArray[np.float64], num_atoms: int, scale_factor: float
 ) -> NDArray[np.float64]:
-    """Read atomic symbols from a VASP POSCAR file.
+    """Read fractional positions from a VASP POSCAR file.
+
+    Cartesian coordinates are scaled by ``scale_factor``, just like lattice vectors.
 
     Raises
     ------
@@ -116,7 +128,7 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) @ np.linalg.inv(lattice)
+        return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
     return np.array(positions)
 
 
@@ -143,9 +155,11 @@ def read_positions(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice_and_scale_factor(file)
         atomic_symbols = _read_atomic_symbols(file)
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return positions
 
 
@@ -167,10 +181,12 @@ def read_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice_and_scale_factor(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return lattice, atomic_numbers, positions
 
 
@@ -194,10 +210,12 @@ def read_ref_structure(
     """
     filepath = pathify(filepath)
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice_and_scale_factor(file)
         atomic_symbols = _read_atomic_symbols(file)
         atomic_numbers = [ATOMIC_NUMBERS[symbol] for symbol in atomic_symbols]
-        positions = _read_positions(file, lattice, len(atomic_symbols))
+        positions = _read_positions(
+            file, lattice, len(atomic_symbols), scale_factor
+        )
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index dd2e6fc..1002f6d 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -9,7 +9,7 @@ from ramannoodle.io._utils import verify_trajectory, pathify
 from ramannoodle.exceptions import InvalidFileException
 from ramannoodle.dynamics._trajectory import Trajectory
 from ramannoodle.io.vasp.poscar import (
-    _read_lattice,
+    _read_lattice_and_scale_factor,
     _read_atomic_symbols,
     _read_positions,
     _get_lattice_str,
@@ -43,11 +43,13 @@ def read_positions_ts(
     filepath = pathify(filepath)
     positions_ts = []
     with open(filepath, "r", encoding="utf-8") as file:
-        lattice = _read_lattice(file)
+        lattice, scale_factor = _read_lattice_and_scale_factor(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
             try:
-                positions = _read_positions(file, lattice, len(atomic_symbols))
+                positions = _read_positions(
+                    file, lattice, len(atomic_symbols), scale_factor
+                )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
                 if "missing first character in coordinate format:" in str(exc):
-- 
2.43.0


From a295b8cce7176c3942292d8e2b81277c64b2f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 05/32] fix: report malformed POSCAR and XDATCAR files as
 invalid

A file ending after 'Selective dynamics', negative ion counts, a singular
Cartesian lattice, an XDATCAR without configurations and one with content after
a blank line escaped as unrelated exceptions or were silently truncated; labels
starting with 'K' are Cartesian according to the format.
---
 ramannoodle/io/vasp/poscar.py  | 11 ++++++++---
 ramannoodle/io/vasp/xdatcar.py |  3 +++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/io/vasp/poscar.py b/ramannoodle/io/vasp/poscar.py
index bdb025a..7140ccc 100644
--- a/ramannoodle/io/vasp/poscar.py
+++ b/ramannoodle/io/vasp/poscar.py
@@ -82,6 +82,8 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
             int_counts.append(int(count))
         except ValueError as err:
             raise InvalidFileException(f"could not parse counts: {line}") from err
+        if int_counts[-1] < 0:
+            raise InvalidFileException(f"negative ion count: {line}")
 
     result = []
     for symbol, int_count in zip(symbols, int_counts):
@@ -109,9 +111,9 @@ def _read_positions(
         )
     if label[0].lower() == "s":  # selective dynamics
         label = file.readline()
-    if label[0].lower() == "c":
+    if label[:1].lower() in ("c", "k"):
         cart_mode = True
-    elif label[0].lower() != "d":
+    elif label[:1].lower() != "d":
         raise InvalidFileException(f"unrecognized coordinate format: {label}")
 
     positions = []
@@ -128,7 +130,10 @@ def _read_positions(
         positions.append(position)
 
     if cart_mode:
-        return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
+        try:
+            return np.array(positions) * scale_factor @ np.linalg.inv(lattice)
+        except np.linalg.LinAlgError as exc:
+            raise InvalidFileException("lattice vectors are not independent") from exc
     return np.array(positions)
 
 
diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index 1002f6d..f32c9bf 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -55,6 +55,9 @@ def read_positions_ts(
                 if "missing first character in coordinate format:" in str(exc):
                     break
                 raise exc
+        # The time series ends with the first missing label, so nothing may follow.
+        if len(positions_ts) == 0 or file.read().strip() != "":
+            raise InvalidFileException("configurations could not be parsed")
         return np.array(positions_ts)
 
 
-- 
2.43.0


From d1d1bffd1c50aacbe6eb33bfb9117848d7773b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 06/32] fix: report truncated or inconsistent OUTCAR files as
 invalid

Rows with fewer than three columns, missing rows at the end of the file and ion
counts which do not match the listed elements produced arrays with wrong
shapes, missing atoms, or unrelated exceptions instead of InvalidFileException.
---
 ramannoodle/io/vasp/outcar.py | 53 +++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index b552dea..892a7ad 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -24,6 +24,18 @@ except UserError:
 
 
 # Utilities for OUTCAR. Warning: some of these functions partially read files.
+def _parse_vector(items: list[str]) -> list[float]:
+    """Parse three vector components, neither more nor less.
+
+    Raises
+    ------
+    ValueError
+    """
+    if len(items) != 3:
+        raise ValueError(f"expected 3 vector components, not {len(items)}")
+    return [float(item) for item in items]
+
+
 def _get_atomic_symbol_from_potcar_line(line: str) -> str:
     """Read atomic symbol from a POTCAR line in a VASP OUTCAR file.
 
@@ -74,13 +86,20 @@ def _read_atomic_symbols(file: TextIO) -> list[str]:
     # Then get atom numbers
     try:
         line = _skip_file_until_line_contains(file, "ions per type")
-        atomic_numbers = [int(item) for item in line.split()[4:]]
+        ion_counts = [int(item) for item in line.split()[4:]]
+        if (  # The first POTCAR can be listed once more, depending on the version
+            len(potcar_symbols) == len(ion_counts) + 1
+            and potcar_symbols[0] == potcar_symbols[-1]
+        ):
+            potcar_symbols.pop()
+        if len(ion_counts) != len(potcar_symbols) or min(ion_counts) < 0:
+            raise ValueError(f"{len(potcar_symbols)} positive ion counts expected")
 
         atomic_symbols = []
-        for symbol, number in zip(potcar_symbols, atomic_numbers):
-            atomic_symbols += [symbol] * number
+        for symbol, ion_count in zip(potcar_symbols, ion_counts):
+            atomic_symbols += [symbol] * ion_count
         return atomic_symbols
-    except (NoMatchingLineFoundException, IndexError) as exc:
+    except (NoMatchingLineFoundException, IndexError, ValueError) as exc:
         raise InvalidFileException(
             f"ion number block could not be parsed: {line}"
         ) from exc
@@ -102,9 +121,10 @@ def _read_eigenvector(
                 break
             if "X" in line:
                 continue
-            vector = [float(item) for item in line.split()[3:]]
-            vector = vector @ np.linalg.inv(lattice)
-            eigenvector.append(vector)
+            vector = _parse_vector(line.split()[3:])
+            eigenvector.append(vector @ np.linalg.inv(lattice))
+        if len(eigenvector) != num_atoms:
+            raise ValueError("incomplete eigenvector")
         return np.array(eigenvector)
     except (ValueError, IndexError) as exc:
         raise InvalidFileException(f"eigenvector could not be parsed: {line}") from exc
@@ -127,7 +147,7 @@ def _read_cart_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_coordinates.append([float(item) for item in line.split()[0:3]])
+            cart_coordinates.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"cartesian positions could not be parsed: {line}"
@@ -154,7 +174,7 @@ def _read_positions(file: TextIO, num_atoms: int) -> NDArray[np.float64]:
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            positions.append([float(item) for item in line.split()[0:3]])
+            positions.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"fractional positions could not be parsed: {line}"
@@ -185,7 +205,7 @@ def _read_polarizability(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            polarizability.append([float(item) for item in line.split()[0:3]])
+            polarizability.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"polarizability could not be parsed: {line}"
@@ -202,7 +222,7 @@ def _get_lattice_vector_from_outcar_line(line: str) -> NDArray[np.float64]:
     ValueError
     """
     try:
-        return np.array([float(item) for item in line.split()[0:3]])
+        return np.array(_parse_vector(line.split()[0:3]))
     except TypeError as exc:
         raise TypeError("line is not a str") from exc
     except IndexError as exc:
@@ -291,7 +311,7 @@ def read_phonons(filepath: str | Path) -> Phonons:
                     )
                 else:
                     wavenumbers.append(float(line.split()[7]))
-            except (NoMatchingLineFoundException, TypeError, IndexError) as exc:
+            except (NoMatchingLineFoundException, ValueError, IndexError) as exc:
                 raise InvalidFileException("eigenvalue could not be parsed") from exc
             eigenvectors.append(_read_eigenvector(file, num_atoms, lattice))
 
@@ -469,7 +489,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append([float(item) for item in line.split()[0:3]])
+            cart_positions.append(_parse_vector(line.split()[0:3]))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
@@ -490,7 +510,7 @@ def _read_timestep(file: TextIO) -> float:
         raise InvalidFileException("timestep not found") from exc
     try:
         return float(line.split()[2])
-    except (IndexError, TypeError) as exc:
+    except (IndexError, ValueError) as exc:
         raise InvalidFileException(f"timestep could not be parsed: {line}") from exc
 
 
@@ -530,7 +550,10 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
                 continue  # we skip ab initio following ML step
             ml_step = "(ML)" in line
             cart_positions = _read_next_cart_positions_ts(file, len(atomic_symbols))
-            positions_ts.append(cart_positions @ np.linalg.inv(lattice))
+            try:
+                positions_ts.append(cart_positions @ np.linalg.inv(lattice))
+            except np.linalg.LinAlgError as exc:
+                raise InvalidFileException("invalid lattice") from exc
 
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
-- 
2.43.0


From ccfa395ad8b7c0570d4b8fe2538846408aeb89a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 07/32] fix: report malformed vasprun.xml files as invalid

Unknown elements, unparsable numbers, rows with the wrong number of columns and
inconsistent array lengths escaped as KeyError, IndexError or ValueError (the
KeyError even surfaced as 'unsupported format'), or produced misshapen arrays.
---
 ramannoodle/io/vasp/vasprun.py | 96 ++++++++++++++++++++++------------
 1 file changed, 64 insertions(+), 32 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index 3ab4e7a..ff2d472 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -44,29 +44,61 @@ def _parse_atomic_symbols(root: Element) -> list[str]:
 
     atomic_symbols = []
     for child in set_element:
-        atomic_symbol = child[0].text
+        atomic_symbol = child[0].text if len(child) > 0 else None
         if atomic_symbol is None:
             raise InvalidFileException("child has no text")
-        atomic_symbols.append(atomic_symbol.strip())
+        atomic_symbol = atomic_symbol.strip()
+        if atomic_symbol not in ATOMIC_NUMBERS:
+            raise InvalidFileException(f"unrecognized atomic symbol: {atomic_symbol}")
+        atomic_symbols.append(atomic_symbol)
     return atomic_symbols
 
 
-def _parse_positions(structure_varray: Element) -> NDArray[np.float64]:
-    """Parse atomic fractional positions from a vasprun.xml Element.
+def _parse_floats(text: str) -> list[float]:
+    """Parse whitespace-separated numbers.
 
-    This function reads the positions from the initial structure.
+    Raises
+    ------
+    InvalidFileException
+    """
+    try:
+        return [float(i) for i in text.split()]
+    except ValueError as exc:
+        raise InvalidFileException(f"numbers could not be parsed: {text}") from exc
+
+
+def _parse_vectors(varray: Element, num_vectors: int | None = None) -> list[list[float]]:
+    """Parse 3-vectors contained in a varray.
 
     Raises
     ------
     InvalidFileException
     """
-    positions = []
-    for child in structure_varray:
+    vectors = []
+    for child in varray:
         text = child.text
         if text is None:
             raise InvalidFileException("varray child text not found")
-        positions.append([float(i) for i in text.split()])
-    return np.array(positions)
+        vectors.append(_parse_floats(text))
+        if len(vectors[-1]) != 3:
+            raise InvalidFileException(f"vector has wrong length: {text}")
+    if len(vectors) == 0 or num_vectors not in (None, len(vectors)):
+        raise InvalidFileException(f"wrong number of vectors: {len(vectors)}")
+    return vectors
+
+
+def _parse_positions(
+    structure_varray: Element, num_atoms: int | None = None
+) -> NDArray[np.float64]:
+    """Parse atomic fractional positions from a vasprun.xml Element.
+
+    This function reads the positions from the initial structure.
+
+    Raises
+    ------
+    InvalidFileException
+    """
+    return np.array(_parse_vectors(structure_varray, num_atoms))
 
 
 def _parse_polarizability(root: Element) -> NDArray[np.float64]:
@@ -82,13 +114,7 @@ def _parse_polarizability(root: Element) -> NDArray[np.float64]:
     polarizability_element = root.find("./calculation/varray[@name='dielectric_dft']")
     if polarizability_element is None:
         raise InvalidFileException("polarizability not found")
-    polarizability = []
-    for child in polarizability_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        polarizability.append([float(i) for i in text.split()])
-    return np.array(polarizability)
+    return np.array(_parse_vectors(polarizability_element, 3))
 
 
 def _parse_lattice(root: Element) -> NDArray[np.float64]:
@@ -104,13 +130,7 @@ def _parse_lattice(root: Element) -> NDArray[np.float64]:
     if varray_element is None:
         raise InvalidFileException("lattice not found")
 
-    lattice = []
-    for child in varray_element:
-        text = child.text
-        if text is None:
-            raise InvalidFileException("varray child text not found")
-        lattice.append([float(i) for i in text.split()])
-    return np.array(lattice)
+    return np.array(_parse_vectors(varray_element, 3))
 
 
 def read_positions_and_polarizability(
@@ -187,7 +207,7 @@ def read_structure_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(atomic_symbols))
         polarizability = _parse_polarizability(root)
         return lattice, atomic_numbers, positions, polarizability
 
@@ -275,7 +295,7 @@ def read_ref_structure(filepath: str | Path) -> ReferenceStructure:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(atomic_symbols))
         return ReferenceStructure(atomic_numbers, lattice, positions)
 
 
@@ -292,7 +312,10 @@ def _parse_timestep(root: Element) -> float:
     text = element.text
     if text is None:
         raise InvalidFileException("potim element has no text")
-    return float(text.strip())
+    try:
+        return float(text.strip())
+    except ValueError as exc:
+        raise InvalidFileException(f"timestep could not be parsed: {text}") from exc
 
 
 def read_trajectory(filepath: str | Path) -> Trajectory:
@@ -321,7 +344,11 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
             structure_varray = structure.find("varray")
             if structure_varray is None:
                 raise InvalidFileException("structure varray not found")
-            positions_ts.append(_parse_positions(structure_varray))
+            positions_ts.append(
+                _parse_positions(
+                    structure_varray, len(positions_ts[0]) if positions_ts else None
+                )
+            )
         if len(positions_ts) == 0:
             raise InvalidFileException("no trajectory found")
 
@@ -342,7 +369,7 @@ def _parse_eigenvalues(root: Element) -> NDArray[np.float64]:
         raise InvalidFileException("eigenvalues not found")
     if element.text is None:
         raise InvalidFileException("eigenvalues has no text")
-    eigenvalues = np.array([float(i) for i in element.text.split()])
+    eigenvalues = np.array(_parse_floats(element.text))
     # Eigenvalues are -frequency^2, so positive eigenvalues are imaginary modes. As is
     # convention, these are represented by negative wavenumbers.
     wavenumbers = np.sqrt(np.abs(eigenvalues)) * 1 / 0.0299792458
@@ -367,9 +394,12 @@ def _parse_eigenvectors(root: Element) -> NDArray[np.float64]:
     for v in element:
         if v.text is None:
             raise InvalidFileException("eigenvector element has no text")
-        cart_eigenvector = np.array([float(i) for i in v.text.split()])
-        cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
-        eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
+        cart_eigenvector = np.array(_parse_floats(v.text))
+        try:
+            cart_eigenvector = cart_eigenvector.reshape((num_atoms, 3))
+            eigenvectors.append(cart_eigenvector @ np.linalg.inv(lattice))
+        except ValueError as exc:
+            raise InvalidFileException("eigenvector could not be parsed") from exc
 
     return np.array(eigenvectors)
 
@@ -401,10 +431,12 @@ def read_phonons(filepath: str | Path) -> Phonons:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        ref_positions = _parse_positions(structure_varray)
+        ref_positions = _parse_positions(structure_varray, len(atomic_symbols))
 
         wavenumbers = _parse_eigenvalues(root)
         eigenvectors = _parse_eigenvectors(root)
+        if len(wavenumbers) != len(eigenvectors) or len(wavenumbers) == 0:
+            raise InvalidFileException("eigenvalues and eigenvectors do not match")
         displacements = eigenvectors / np.sqrt(atomic_weights)[:, np.newaxis]
 
         return Phonons(ref_positions, wavenumbers, displacements)
-- 
2.43.0


From ef833b88f09b837be100f0ef93457df60c4232c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:17 +0000
Subject: [PATCH 08/32] fix: do not apply periodic boundary conditions to
 directions

Only the direction of a DOF or ART vector matters, but vectors longer than half
a cell were wrapped before being normalized, which silently changed their
direction (e.g. (3.0,1.9,0) in a 4 angstrom cubic cell).
---
 ramannoodle/pmodel/_interpolation.py |  6 ++++--
 ramannoodle/structure/_reference.py  | 11 +++--------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 3714a8a..fb299b3 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -451,8 +451,10 @@ class InterpolationModel(PolarizabilityModel):
 
         """
         try:
-            displacement = self.ref_structure.get_frac_displacement(cart_displacement)
-
+            # Small magnitudes are not affected by periodic boundary conditions.
+            displacement = self.ref_structure.get_frac_displacement(
+                0.1 * cart_displacement / np.linalg.norm(cart_displacement)
+            )
             parent_displacement = displacement / np.linalg.norm(displacement * 10.0)
         except TypeError as exc:
             raise TypeError("displacement is not an ndarray") from exc
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 98cbd7e..eaf91fb 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -11,7 +11,6 @@ from ramannoodle.exceptions import (
     get_type_error,
     verify_ndarray_shape,
     verify_list_len,
-    get_shape_error,
 )
 from ramannoodle.structure.utils import (
     displace_positions,
@@ -297,11 +296,8 @@ class ReferenceStructure:
         :
             (Å) Array with shape (3,).
         """
-        direction = apply_pbc_displacement(direction)
-        try:
-            return np.array([direction]) @ self._lattice
-        except ValueError as exc:
-            raise get_shape_error("direction", direction, "(3,)") from exc
+        verify_ndarray_shape("direction", direction, (3,))
+        return direction @ self._lattice
 
     def get_frac_displacement(
         self, cart_displacement: NDArray[np.float64]
@@ -338,8 +334,7 @@ class ReferenceStructure:
             (fractional) Array with shape (3,).
         """
         verify_ndarray_shape("direction", cart_direction, (3,))
-        displacement = np.array([cart_direction]) @ np.linalg.inv(self.lattice)
-        return apply_pbc_displacement(displacement[0])
+        return cart_direction @ np.linalg.inv(self.lattice)
 
     def get_atom_indexes(self, atom_symbols: str | list[str]) -> list[int]:
         """Return atom indexes with matching symbols.
-- 
2.43.0


From 4628fab3c7720846fb38e660f7aaa485a566ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 09/32] fix: dummy models without DOFs cannot calculate
 polarizabilities either

A dummy model only raised UserError once a degree of freedom had been added;
before that it silently returned zeros.
---
 ramannoodle/pmodel/_interpolation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index fb299b3..7739278 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -210,6 +210,8 @@ class InterpolationModel(PolarizabilityModel):
             Model is a dummy model.
 
         """
+        if self._is_dummy_model:
+            raise UserError("dummy model cannot calculate polarizabilities")
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
-- 
2.43.0


From 1fbe5a9a74837715b11f06206ac70109553d5a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 10/32] fix: raise NotImplementedError for array orientations

Comparing an array with a string gave an element-wise result and therefore an
unrelated ValueError, instead of the documented NotImplementedError.
---
 ramannoodle/spectrum/_raman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/spectrum/_raman.py b/ramannoodle/spectrum/_raman.py
index 6b2f51a..81d29fa 100644
--- a/ramannoodle/spectrum/_raman.py
+++ b/ramannoodle/spectrum/_raman.py
@@ -155,7 +155,7 @@ class PhononRamanSpectrum(RamanSpectrum):
             Raised when any orientation besides ``"polycrystalline"`` is supplied.
 
         """
-        if orientation != "polycrystalline":
+        if not isinstance(orientation, str) or orientation != "polycrystalline":
             raise NotImplementedError(
                 "only polycrystalline spectra are supported for now"
             )
@@ -273,7 +273,7 @@ class MDRamanSpectrum(RamanSpectrum):
             #.  intensities -- (arbitrary units) Array with shape (ceiling(S / 2),).
 
         """
-        if orientation != "polycrystalline":
+        if not isinstance(orientation, str) or orientation != "polycrystalline":
             raise NotImplementedError(
                 "only polycrystalline spectra are supported for now"
             )
-- 
2.43.0


From ecb9bb409a3c023a03813faa7111c317c9d49f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 11/32] fix: allow integer out_wavenumbers in convolve_spectrum

Intensities were accumulated in an array of the same dtype as out_wavenumbers,
so np.arange(...) could not be used.
---
 ramannoodle/spectrum/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/spectrum/utils.py b/ramannoodle/spectrum/utils.py
index a5a796c..087b528 100644
--- a/ramannoodle/spectrum/utils.py
+++ b/ramannoodle/spectrum/utils.py
@@ -54,7 +54,7 @@ def convolve_spectrum(
         raise get_type_error("width", width, "float") from exc
     verify_ndarray("out_wavenumbers", out_wavenumbers)
 
-    convolved_intensities = out_wavenumbers * 0
+    convolved_intensities = out_wavenumbers * 0.0
     for wavenumber, intensity in zip(wavenumbers, intensities):
         factor = 0
         if function == "gaussian":
-- 
2.43.0


From b5d82f9baeae3eabab3c2fc4ce8003d0517e98cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 12/32] fix: keep the default dtype when rescaling a
 PolarizabilityDataset

scale_polarizabilities switched the scaled polarizabilities to float64, so a
rescaled dataset could no longer be used for training with float32 models.
---
 ramannoodle/dataset/torch/_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/dataset/torch/_dataset.py b/ramannoodle/dataset/torch/_dataset.py
index b43d016..4e42ebd 100644
--- a/ramannoodle/dataset/torch/_dataset.py
+++ b/ramannoodle/dataset/torch/_dataset.py
@@ -214,7 +214,7 @@ class PolarizabilityDataset(Dataset[tuple[Tensor, Tensor, Tensor, Tensor]]):
         scaled /= torch.tensor(stddev)
         self._scaled_polarizabilities = (
             rn_torch_utils.polarizability_tensors_to_vectors(scaled)
-        )
+        ).type(torch.get_default_dtype())
 
     def __len__(self) -> int:
         """Get number of samples."""
-- 
2.43.0


From 6e9d77863694412a2b684dc736076cceda0590b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 13/32] fix: rotate (1,0,0) onto (-1,0,0) instead of leaving it
 unchanged

get_rotations returned the identity for targets exactly antiparallel to the
reference vector.
---
 ramannoodle/pmodel/torch/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index ef3cc49..bfbdbd6 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -61,6 +61,8 @@ def get_rotations(targets: Tensor) -> Tensor:
 
     # a==b implies s==0, which implies rotation should be identity/
     rotations[s == 0] = torch.eye(3)
+    # a==-b implies s==0 as well, but requires a 180 degree rotation.
+    rotations[(s == 0) & (c < 0)] = torch.diag(torch.tensor([-1.0, -1.0, 1.0]))
 
     return rotations
 
-- 
2.43.0


From f8f087fa86e3d1766c5c2410e047af0616f68800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 14/32] fix: support pymatgen trajectories stored as
 displacements

The displacements between subsequent frames were taken for positions.
---
 ramannoodle/io/pymatgen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index 81d0354..c520cc6 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -185,4 +185,8 @@ def construct_trajectory(
             pymatgen_trajectory,
             "pymatgen.core.trajectory.Trajectory",
         ) from exc
-    return Trajectory(pymatgen_trajectory.coords, timestep)
+    positions_ts = np.array(pymatgen_trajectory.coords)
+    if pymatgen_trajectory.coords_are_displacement:
+        positions_ts = np.cumsum(positions_ts, axis=0)
+        positions_ts += pymatgen_trajectory.base_positions
+    return Trajectory(positions_ts, timestep)
-- 
2.43.0


From 6df2dc70e2dcb9cc71c9c7e76ebc4489cee390f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 15/32] fix: reject arrays which only fit the structure by
 broadcasting

Positions, displacements and directions of a single atom or a single coordinate
were silently broadcast to all atoms.
---
 ramannoodle/pmodel/_interpolation.py | 8 ++++++++
 ramannoodle/structure/_displace.py   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 7739278..87bc848 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -212,6 +212,9 @@ class InterpolationModel(PolarizabilityModel):
         """
         if self._is_dummy_model:
             raise UserError("dummy model cannot calculate polarizabilities")
+        verify_ndarray_shape(
+            "positions", positions_batch, (None, self._ref_structure.num_atoms, 3)
+        )
         try:
             delta_polarizabilities: NDArray[np.float64] = np.zeros(
                 (positions_batch.shape[0], 3, 3)
@@ -560,6 +563,9 @@ class InterpolationModel(PolarizabilityModel):
         displacements = []
         for i, structure in enumerate(pymatgen_structures):
             positions = pymatgen_io.get_positions(structure)
+            if positions.shape != self._ref_structure.positions.shape:
+                invalid = f"pymatgen_structures[{i}]"
+                raise InvalidDOFException(f"incompatible structure: {invalid}")
             try:
                 displacement = calc_displacement(
                     self._ref_structure.positions,
@@ -670,6 +676,8 @@ class InterpolationModel(PolarizabilityModel):
                 positions = generic_io.read_positions(filepath, file_format)
                 polarizability = np.zeros((3, 3))
 
+            if positions.shape != self._ref_structure.positions.shape:
+                raise InvalidDOFException(f"incompatible outcar: {filepath}")
             try:
                 displacement = calc_displacement(
                     self._ref_structure.positions,
diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index 184450c..ce678aa 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -55,6 +55,12 @@ def get_displaced_positions(
         cart_displacement = cart_displacement / float(np.linalg.norm(cart_displacement))
     except TypeError as err:
         raise get_type_error("cart_displacement", cart_displacement, "ndarray") from err
+    if cart_displacement.shape != ref_structure.positions.shape:
+        raise get_shape_error(
+            "cart_displacement",
+            cart_displacement,
+            f"({len(ref_structure.positions)}, 3)",
+        )
     verify_ndarray_shape("amplitudes", amplitudes, (None,))
 
     positions = []
@@ -146,6 +152,7 @@ def get_ast_displaced_positions(
     except TypeError as err:
         raise get_type_error("cart_direction", cart_direction, "ndarray") from err
     cart_displacement = ref_structure.positions * 0
+    verify_ndarray_shape("cart_direction", cart_direction, (3,))
     try:
         cart_displacement[atom_index] = cart_direction
     except ValueError as err:
-- 
2.43.0


From f4964a9780672d40035a6bbb0a774bf2e228f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 16/32] fix: reject vasprun.xml files whose positions do not
 match the atoms

---
 ramannoodle/io/vasp/vasprun.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/ramannoodle/io/vasp/vasprun.py b/ramannoodle/io/vasp/vasprun.py
index ff2d472..87417c9 100644
--- a/ramannoodle/io/vasp/vasprun.py
+++ b/ramannoodle/io/vasp/vasprun.py
@@ -67,7 +67,7 @@ def _parse_floats(text: str) -> list[float]:
         raise InvalidFileException(f"numbers could not be parsed: {text}") from exc
 
 
-def _parse_vectors(varray: Element, num_vectors: int | None = None) -> list[list[float]]:
+def _parse_vectors(varray: Element, num_vectors: int) -> list[list[float]]:
     """Parse 3-vectors contained in a varray.
 
     Raises
@@ -82,13 +82,13 @@ def _parse_vectors(varray: Element, num_vectors: int | None = None) -> list[list
         vectors.append(_parse_floats(text))
         if len(vectors[-1]) != 3:
             raise InvalidFileException(f"vector has wrong length: {text}")
-    if len(vectors) == 0 or num_vectors not in (None, len(vectors)):
+    if len(vectors) == 0 or len(vectors) != num_vectors:
         raise InvalidFileException(f"wrong number of vectors: {len(vectors)}")
     return vectors
 
 
 def _parse_positions(
-    structure_varray: Element, num_atoms: int | None = None
+    structure_varray: Element, num_atoms: int
 ) -> NDArray[np.float64]:
     """Parse atomic fractional positions from a vasprun.xml Element.
 
@@ -165,7 +165,7 @@ def read_positions_and_polarizability(
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(_parse_atomic_symbols(root)))
         polarizability = _parse_polarizability(root)
         return positions, polarizability
 
@@ -262,7 +262,7 @@ def read_positions(filepath: str | Path) -> NDArray[np.float64]:
         structure_varray = root.find("./structure[@name='initialpos']/varray")
         if structure_varray is None:
             raise InvalidFileException("initial positions not found")
-        positions = _parse_positions(structure_varray)
+        positions = _parse_positions(structure_varray, len(_parse_atomic_symbols(root)))
         return positions
 
 
@@ -337,20 +337,17 @@ def read_trajectory(filepath: str | Path) -> Trajectory:
         root = _get_root_element(file)
 
         structures = root.iterfind("structure")
+        structures = [s for s in structures if "name" not in s.attrib]  # skip named
+        if len(structures) == 0:
+            raise InvalidFileException("no trajectory found")
+
+        num_atoms = len(_parse_atomic_symbols(root))
         positions_ts = []
         for structure in structures:
-            if "name" in structure.attrib:  # skip named structures
-                continue
             structure_varray = structure.find("varray")
             if structure_varray is None:
                 raise InvalidFileException("structure varray not found")
-            positions_ts.append(
-                _parse_positions(
-                    structure_varray, len(positions_ts[0]) if positions_ts else None
-                )
-            )
-        if len(positions_ts) == 0:
-            raise InvalidFileException("no trajectory found")
+            positions_ts.append(_parse_positions(structure_varray, num_atoms))
 
         timestep = _parse_timestep(root)
 
-- 
2.43.0


From 64259d9e2e74c6b5e1f994b20c7885af0930cdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 17/32] fix: report OUTCAR files ending at an eigenvector as
 invalid

---
 ramannoodle/io/vasp/outcar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 892a7ad..829839f 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -115,6 +115,7 @@ def _read_eigenvector(
     InvalidFileException
     """
     eigenvector: list[NDArray[np.float64]] = []
+    line = ""
     try:
         for line in file:
             if len(eigenvector) == num_atoms:
-- 
2.43.0


From 8970c47ab9b1edd9bef80b94f6e8dd74f72edc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 18/32] fix: do not drop the last configuration of a damaged
 XDATCAR silently

---
 ramannoodle/io/vasp/xdatcar.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ramannoodle/io/vasp/xdatcar.py b/ramannoodle/io/vasp/xdatcar.py
index f32c9bf..75beae1 100644
--- a/ramannoodle/io/vasp/xdatcar.py
+++ b/ramannoodle/io/vasp/xdatcar.py
@@ -46,18 +46,18 @@ def read_positions_ts(
         lattice, scale_factor = _read_lattice_and_scale_factor(file)
         atomic_symbols = _read_atomic_symbols(file)
         while True:
+            start = file.tell()
             try:
                 positions = _read_positions(
                     file, lattice, len(atomic_symbols), scale_factor
                 )
                 positions_ts.append(positions)
             except InvalidFileException as exc:
-                if "missing first character in coordinate format:" in str(exc):
-                    break
-                raise exc
-        # The time series ends with the first missing label, so nothing may follow.
-        if len(positions_ts) == 0 or file.read().strip() != "":
-            raise InvalidFileException("configurations could not be parsed")
+                # The time series ends only if nothing follows.
+                file.seek(start)
+                if len(positions_ts) == 0 or file.read().strip() != "":
+                    raise exc
+                break
         return np.array(positions_ts)
 
 
-- 
2.43.0


From bdb59c33296fcd3d4777bec3b43a3048f799960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:13 +0000
Subject: [PATCH 19/32] fix: do not hand out views of the symmetry operations

get_equivalent_displacements returned views of the rotations and translations
of the structure, so that modifying the result corrupted the structure.
---
 ramannoodle/structure/_reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index eaf91fb..543c7ef 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -232,7 +232,7 @@ class ReferenceStructure:
                 result.append(
                     {
                         "displacements": [candidate_displacement],
-                        "transformations": [(rotation, translation)],
+                        "transformations": [(rotation.copy(), translation.copy())],
                     }
                 )
                 orthogonal_displacements.append(candidate_displacement)
@@ -259,7 +259,7 @@ class ReferenceStructure:
                             candidate_displacement
                         )
                         result[collinear_result]["transformations"].append(
-                            (rotation, translation)
+                            (rotation.copy(), translation.copy())
                         )
 
         return result
-- 
2.43.0


From 54b48c456c9c9b48f1a6c81d36227f400af353cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:19 +0000
Subject: [PATCH 20/32] fix: do not hand out views of the ART basis vectors

get_specification_tuples returned views of the basis vectors of the model, so
that modifying the result corrupted the model.
---
 ramannoodle/pmodel/_art.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 8e5752d..7913a8f 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -368,7 +368,7 @@ class ARTModel(InterpolationModel):
         """Return specified art cartesian direction vectors for an atom."""
         indexes = self.get_dof_indexes(atom_index)
         cart_directions = [
-            self._cart_basis_vectors[index][atom_index] for index in indexes
+            self._cart_basis_vectors[index][atom_index].copy() for index in indexes
         ]
         return cart_directions
 
-- 
2.43.0


From 8dbc415a23f9ac441ca7ec2578742fc94e0f95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 21/32] fix: reject displacements of the wrong shape or type

get_equivalent_displacements broadcast displacements of other shapes, and
get_displaced_positions raised AttributeError for numbers.
---
 ramannoodle/structure/_displace.py  | 2 ++
 ramannoodle/structure/_reference.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/ramannoodle/structure/_displace.py b/ramannoodle/structure/_displace.py
index ce678aa..2fb8dd1 100644
--- a/ramannoodle/structure/_displace.py
+++ b/ramannoodle/structure/_displace.py
@@ -21,6 +21,7 @@ from ramannoodle.structure.utils import displace_positions
 from ramannoodle.exceptions import (
     get_type_error,
     get_shape_error,
+    verify_ndarray,
     verify_ndarray_shape,
     verify_list_len,
 )
@@ -51,6 +52,7 @@ def get_displaced_positions(
         (fractional) List of length M containing arrays with shape (N,3).
 
     """
+    verify_ndarray("cart_displacement", cart_displacement)
     try:
         cart_displacement = cart_displacement / float(np.linalg.norm(cart_displacement))
     except TypeError as err:
diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 543c7ef..977860d 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -200,6 +200,7 @@ class ReferenceStructure:
             in fractional coordinates.
 
         """
+        verify_ndarray_shape("displacement", displacement, (self.num_atoms, 3))
         displacement = apply_pbc_displacement(displacement)
         # Scale the displacement for numerical reasons.
         displacement = displacement / (np.linalg.norm(displacement) * 10)
-- 
2.43.0


From 263948805c667981aeeb3853a801949c180e076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 22/32] fix: reject mis-shaped polarizabilities of pymatgen
 ARTs

---
 ramannoodle/pmodel/_art.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ramannoodle/pmodel/_art.py b/ramannoodle/pmodel/_art.py
index 7913a8f..eda285c 100644
--- a/ramannoodle/pmodel/_art.py
+++ b/ramannoodle/pmodel/_art.py
@@ -13,6 +13,7 @@ from ramannoodle.pmodel._interpolation import InterpolationModel
 from ramannoodle.exceptions import (
     get_type_error,
     get_shape_error,
+    verify_list_len,
     verify_ndarray_shape,
     InvalidDOFException,
     UserError,
@@ -276,9 +277,15 @@ class ARTModel(InterpolationModel):
             ART assembled from supplied Structures was invalid. See :meth:`add_art` for
             restrictions.
         """
+        verify_list_len("pymatgen_structures", pymatgen_structures, None)
         displacements, amplitudes = super()._get_displacement_amplitudes_pymatgen(
             pymatgen_structures
         )
+        if self._is_dummy_model:
+            polarizabilities = np.zeros((amplitudes.size, 3, 3))
+        verify_ndarray_shape(
+            "polarizabilities", polarizabilities, (amplitudes.size, 3, 3)
+        )
 
         # Check whether only one atom is displaced.
         _displacement = displacements[0].copy()
-- 
2.43.0


From 7a7e26f8a2db84f5ce072e9cd70be42e6c374c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 23/32] fix: avoid NaN rotations for almost antiparallel
 vectors

---
 ramannoodle/pmodel/torch/_utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index bfbdbd6..d78c71a 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -59,10 +59,12 @@ def get_rotations(targets: Tensor) -> Tensor:
     b1 = (1 - c) / (s**2)
     rotations += a1 * b1[:, None, None]
 
-    # a==b implies s==0, which implies rotation should be identity/
-    rotations[s == 0] = torch.eye(3)
+    # a==b implies s==0, which implies rotation should be identity/ The square of s can
+    # underflow even if s does not.
+    is_parallel = s < torch.finfo(s.dtype).eps
+    rotations[is_parallel] = torch.eye(3)
     # a==-b implies s==0 as well, but requires a 180 degree rotation.
-    rotations[(s == 0) & (c < 0)] = torch.diag(torch.tensor([-1.0, -1.0, 1.0]))
+    rotations[is_parallel & (c < 0)] = torch.diag(torch.tensor([-1.0, -1.0, 1.0]))
 
     return rotations
 
-- 
2.43.0


From 55c457de575374e48d440aaa4b7228cb8ced0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 24/32] fix: refuse OUTCAR rows and frequencies which lack a
 column

A lattice, position or frequency line that lost one of its columns was read
with the remaining columns shifted into the wrong places.
---
 ramannoodle/io/vasp/outcar.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/io/vasp/outcar.py b/ramannoodle/io/vasp/outcar.py
index 829839f..35ad0aa 100644
--- a/ramannoodle/io/vasp/outcar.py
+++ b/ramannoodle/io/vasp/outcar.py
@@ -36,6 +36,19 @@ def _parse_vector(items: list[str]) -> list[float]:
     return [float(item) for item in items]
 
 
+def _parse_first_vector(line: str) -> list[float]:
+    """Parse the first of the two vectors listed side by side on a line.
+
+    Raises
+    ------
+    ValueError
+    """
+    items = line.split()
+    if len(items) != 6:
+        raise ValueError(f"expected two vectors: {line}")
+    return _parse_vector(items[0:3])
+
+
 def _get_atomic_symbol_from_potcar_line(line: str) -> str:
     """Read atomic symbol from a POTCAR line in a VASP OUTCAR file.
 
@@ -255,7 +268,7 @@ def _read_lattice(file: TextIO) -> NDArray[np.float64]:
     for _ in range(3):
         try:
             line = file.readline()
-            lattice.append(_get_lattice_vector_from_outcar_line(line))
+            lattice.append(_parse_first_vector(line))
         except (EOFError, ValueError) as exc:
             raise InvalidFileException(f"lattice could not be parsed: {line}") from exc
 
@@ -311,6 +324,8 @@ def read_phonons(filepath: str | Path) -> Phonons:
                         -float(line.split()[6])  # set negative wavenumber
                     )
                 else:
+                    if line.split()[1] != "f":
+                        raise ValueError(f"unexpected frequency: {line}")
                     wavenumbers.append(float(line.split()[7]))
             except (NoMatchingLineFoundException, ValueError, IndexError) as exc:
                 raise InvalidFileException("eigenvalue could not be parsed") from exc
@@ -490,7 +505,7 @@ def _read_next_cart_positions_ts(file: TextIO, num_atoms: int) -> NDArray[np.flo
     for _ in range(num_atoms):
         try:
             line = file.readline()
-            cart_positions.append(_parse_vector(line.split()[0:3]))
+            cart_positions.append(_parse_first_vector(line))
         except (EOFError, ValueError, IndexError) as exc:
             raise InvalidFileException(
                 f"Cartesian positions could not be parsed: {line}"
-- 
2.43.0


From 76d4650fd6f34c5f17fb5e0d0f15dbe1ee520456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 25/32] fix: pair the edges of triplets with the edges they
 belong to in BatchTriplets

---
 ramannoodle/pmodel/torch/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/torch/_utils.py b/ramannoodle/pmodel/torch/_utils.py
index d78c71a..cb51015 100644
--- a/ramannoodle/pmodel/torch/_utils.py
+++ b/ramannoodle/pmodel/torch/_utils.py
@@ -158,10 +158,11 @@ class BatchTriplets:
         self._num_nodes = num_nodes
         self._num_edges = len(ref_edge_indexes[1])
         with torch.device("cpu"):
-            self._ref_triplets = dimenet_triplets(
+            *node_indexes, index_kj, index_ji = dimenet_triplets(
                 edge_index=ref_edge_indexes[[1, 2]].to("cpu"),
                 num_nodes=self._num_nodes,
             )
+        self._ref_triplets = (*node_indexes, index_ji, index_kj)
         self._ref_triplets = tuple(
             t.to(torch.get_default_device()) for t in self._ref_triplets
         )
-- 
2.43.0


From 610df88f6198d5990799765767492ae23aff8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:03 +0000
Subject: [PATCH 26/32] fix: give PotGNN atom types an order that does not
 depend on the order of the atoms

---
 ramannoodle/pmodel/torch/_gnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/torch/_gnn.py b/ramannoodle/pmodel/torch/_gnn.py
index 802d11b..51ef5be 100644
--- a/ramannoodle/pmodel/torch/_gnn.py
+++ b/ramannoodle/pmodel/torch/_gnn.py
@@ -499,7 +499,7 @@ class PotGNN(
         )
 
         # Atom types map
-        unique_atomic_numbers = set(ref_structure.atomic_numbers)
+        unique_atomic_numbers = sorted(set(ref_structure.atomic_numbers))
         self._num_atom_types = len(unique_atomic_numbers)
         self._atom_type_map = (torch.zeros(119) - 1).type(torch.int)
         for atom_type, atomic_number in enumerate(unique_atomic_numbers):
-- 
2.43.0


From 7403b381e033d1c986275897ae7950bb4ffeeb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:41 +0000
Subject: [PATCH 27/32] fix: report the missing torch in
 construct_polarizability_dataset instead of a NameError

---
 ramannoodle/io/pymatgen.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/io/pymatgen.py b/ramannoodle/io/pymatgen.py
index c520cc6..aaa7ad8 100644
--- a/ramannoodle/io/pymatgen.py
+++ b/ramannoodle/io/pymatgen.py
@@ -5,6 +5,7 @@ from numpy.typing import NDArray
 
 from ramannoodle.exceptions import (
     get_pymatgen_missing_error,
+    get_torch_missing_error,
     UserError,
     verify_list_len,
     verify_ndarray_shape,
@@ -14,10 +15,11 @@ from ramannoodle.exceptions import (
 from ramannoodle.dynamics._trajectory import Trajectory
 from ramannoodle.structure._reference import ReferenceStructure
 
+TORCH_PRESENT = True
 try:
     from ramannoodle.dataset.torch._dataset import PolarizabilityDataset
 except UserError:
-    pass
+    TORCH_PRESENT = False
 
 try:
     import pymatgen.core
@@ -127,6 +129,8 @@ def construct_polarizability_dataset(
         Array with shape (M,3,3).
 
     """
+    if not TORCH_PRESENT:
+        raise get_torch_missing_error()
     verify_list_len("pymatgen_structures", pymatgen_structures, None)
     verify_ndarray_shape(
         "polarizabilities", polarizabilities, (len(pymatgen_structures), 3, 3)
-- 
2.43.0


From 8dfb269b11c38276a69b77cd060aa367aa547cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:15 +0000
Subject: [PATCH 28/32] fix: symmetry operations were applied to displacements
 with transposed rotation matrices

---
 ramannoodle/structure/_reference.py | 31 +++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 977860d..086be96 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -71,6 +71,32 @@ def _get_positions_permutation_matrix(
     return permutation_matrix
 
 
+def _get_row_operations(
+    rotations: NDArray[np.float64], translations: NDArray[np.float64]
+) -> tuple[NDArray[np.float64], NDArray[np.float64]]:
+    """Return symmetry operations that act on positions stored as rows.
+
+    spglib's operations act on columns (x -> rotation @ x + translation), while
+    positions are rows (x -> x @ rotation + translation). Operations with the same
+    translation and inverse rotations change places, so that the order of rotations
+    which are orthogonal matrices stays the same.
+
+    """
+    inverses = np.rint(np.linalg.inv(rotations)).astype(int)
+    keys = np.rint(translations % 1 * 1000) % 1000
+    places = {
+        (rotation.tobytes(), key.tobytes()): place
+        for place, (rotation, key) in enumerate(zip(rotations.astype(int), keys))
+    }
+    order = sorted(
+        range(len(rotations)),
+        key=lambda i: places.get(
+            (inverses[i].tobytes(), keys[i].tobytes()), len(rotations)
+        ),
+    )
+    return np.swapaxes(rotations[order], 1, 2), translations[order]
+
+
 class ReferenceStructure:
     """Reference crystal structure, typically used by polarizability models.
 
@@ -117,8 +143,9 @@ class ReferenceStructure:
         if self._symmetry_dict is None:
             raise SymmetryException("Symmetry search failed. Check structure.")
 
-        self._rotations = self._symmetry_dict["rotations"]
-        self._translations = self._symmetry_dict["translations"]
+        self._rotations, self._translations = _get_row_operations(
+            self._symmetry_dict["rotations"], self._symmetry_dict["translations"]
+        )
         self._permutation_matrices = _compute_permutation_matrices(
             self._rotations, self._translations, self._positions
         )
-- 
2.43.0


From 40d1bd41f667f0d687eb8296152257c5ab7c53a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:15 +0000
Subject: [PATCH 29/32] fix: symmetry-equivalent displacements were judged
 orthogonal in fractional instead of Cartesian coordinates

---
 ramannoodle/structure/_reference.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 086be96..1a3abe8 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -250,8 +250,11 @@ class ReferenceStructure:
                 candidate_positions,
             )
 
+            # Angles are Cartesian, as lattice vectors may be skewed
+            cart_displacement = candidate_displacement @ self._lattice
+
             orthogonal_result = _symmetry_utils.is_orthogonal_to_all(
-                candidate_displacement.flatten(),
+                cart_displacement.flatten(),
                 [item.flatten() for item in orthogonal_displacements],
             )
 
@@ -263,11 +266,11 @@ class ReferenceStructure:
                         "transformations": [(rotation.copy(), translation.copy())],
                     }
                 )
-                orthogonal_displacements.append(candidate_displacement)
+                orthogonal_displacements.append(cart_displacement)
             else:
                 # Candidate can be collinear to maximum of one orthogonal vector
                 collinear_result = _symmetry_utils.is_non_collinear_with_all(
-                    candidate_displacement,
+                    cart_displacement,
                     orthogonal_displacements,
                 )
                 if collinear_result != -1:  # collinear
-- 
2.43.0


From 1d468b7e1bae77804fd04985b15e0a5fb3a9b144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:15 +0000
Subject: [PATCH 30/32] fix: polarizabilities of symmetry-equivalent
 displacements were rotated by fractional rotation matrices

---
 ramannoodle/pmodel/_interpolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 87bc848..5ca906d 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -306,6 +306,7 @@ class InterpolationModel(PolarizabilityModel):
             self._ref_structure.get_equivalent_displacements(parent_displacement)
         )
 
+        lattice = self._ref_structure.lattice
         basis_vectors: list[NDArray[np.float64]] = []
         interpolation_xs: list[list[float]] = []
         interpolation_ys: list[list[NDArray[np.float64]]] = []
@@ -328,7 +329,8 @@ class InterpolationModel(PolarizabilityModel):
 
                 for amplitude, polarizability in zip(amplitudes, polarizabilities):
                     interpolation_x.append(multiplier * amplitude)
-                    rotation = transformation[0]
+                    # Rotations are fractional, polarizabilities Cartesian
+                    rotation = np.linalg.inv(lattice) @ transformation[0] @ lattice
                     delta_polarizability = polarizability - self._ref_polarizability
 
                     interpolation_y.append(
-- 
2.43.0


From c48d4146e9808a9af7bb848b52df8dedd795e955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 31/32] fix: images of a degree of freedom could overlap with
 existing degrees of freedom

---
 ramannoodle/pmodel/_interpolation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ramannoodle/pmodel/_interpolation.py b/ramannoodle/pmodel/_interpolation.py
index 5ca906d..ace6860 100644
--- a/ramannoodle/pmodel/_interpolation.py
+++ b/ramannoodle/pmodel/_interpolation.py
@@ -342,6 +342,15 @@ class InterpolationModel(PolarizabilityModel):
             )
             child_cart_basis_vector /= np.linalg.norm(child_cart_basis_vector)
 
+            result = is_orthogonal_to_all(
+                child_cart_basis_vector, self._cart_basis_vectors
+            )
+            if result != -1:
+                raise InvalidDOFException(
+                    "due to symmetry, new dof is not orthogonal with existing dof "
+                    f"(index={result})"
+                )
+
             basis_vectors.append(child_cart_basis_vector)
             interpolation_xs.append(interpolation_x)
             interpolation_ys.append(interpolation_y)
-- 
2.43.0


From e422569383ae85c34e589be90ef9f176afd0e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:07 +0000
Subject: [PATCH 32/32] fix: symmetry images were lost or wrong if positions
 obey the symmetry within symprec only

---
 ramannoodle/structure/_reference.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ramannoodle/structure/_reference.py b/ramannoodle/structure/_reference.py
index 1a3abe8..1dc117d 100644
--- a/ramannoodle/structure/_reference.py
+++ b/ramannoodle/structure/_reference.py
@@ -66,7 +66,11 @@ def _get_positions_permutation_matrix(
         displacement % 1 > 0.5, displacement % 1 - 1, displacement % 1
     )
     distance_matrix = np.sqrt(np.sum(displacement**2, axis=-1))
-    permutation_matrix = (distance_matrix < 1e-5).T
+
+    # Positions coincide within the tolerance of the symmetry search, so choose closest.
+    closest_indexes = np.argmin(distance_matrix, axis=1)
+    permutation_matrix = np.zeros(distance_matrix.shape, dtype=bool)
+    permutation_matrix[closest_indexes, np.arange(len(closest_indexes))] = True
 
     return permutation_matrix
 
@@ -244,9 +248,10 @@ class ReferenceStructure:
             candidate_positions = transform_positions(
                 ref_positions, rotation, translation
             )
-            candidate_positions = permutation_matrix @ candidate_positions
-            candidate_displacement = calc_displacement(
-                self._positions,
+            # Positions obey symmetry within the tolerance of the symmetry search only.
+            # So compare with transformed reference positions.
+            candidate_displacement = permutation_matrix @ calc_displacement(
+                transform_positions(self._positions, rotation, translation),
                 candidate_positions,
             )
 
-- 
2.43.0

