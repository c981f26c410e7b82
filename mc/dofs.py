"""Reference model of interpolation-based polarizability models."""

from __future__ import annotations

import copy

import numpy as np

from mc import ref


class Rejected(Exception):
    """The reference model rejects an operation (without any effect)."""


class Outside(Exception):
    """The operation is outside the domain of the property."""


class RefModel:
    """Degrees of freedom, closed under the symmetry of the crystal."""

    def __init__(self, lattice, positions, numbers, ref_polarizability, ops=None):
        self.lattice, self.positions, self.numbers = lattice, positions, list(numbers)
        self.ref = np.array(ref_polarizability, float)
        self.ops = ref.operations(lattice, positions, numbers) if ops is None else ops
        self.basis, self.points, self.mask = [], [], []

    def copy(self):
        new = copy.copy(self)
        new.basis, new.points = list(self.basis), list(self.points)
        new.mask = list(self.mask)
        return new

    # -- adding degrees of freedom
    def orbit(self, u):
        """[(unit vector, [(sign, Cartesian operation)])] for all images of u."""
        u = u / np.linalg.norm(u)
        groups = []
        for op in self.ops:
            v = ref.transform_displacement(self.lattice, op, u)
            c = ref.cartesian(self.lattice, op[0])
            placed = False
            for vector, members in groups:
                dot = float(np.sum(vector * v))
                if abs(abs(dot) - 1) < 1e-6:
                    if not any(np.sign(dot) == s for s, _ in members):
                        members.append((float(np.sign(dot)), c))
                    placed = True
                    break
                if abs(dot) > 1e-6:
                    raise Outside()
            if not placed:
                groups.append((v, [(1.0, c)]))
        return groups

    def prepare(self, u, amplitudes, polarizabilities, order, include_ref):
        """Degrees of freedom which an addition would create (or raise Rejected)."""
        unit = u / np.linalg.norm(u)
        for b in self.basis:
            if abs(np.sum(b * unit)) > 1e-6:
                raise Rejected("not orthogonal")
        new = []
        for vector, members in self.orbit(u):
            xs, ys = ([0.0], [np.zeros((3, 3))]) if include_ref else ([], [])
            for sign, c in members:
                for a, p in zip(amplitudes, polarizabilities):
                    xs.append(sign * a)
                    ys.append(c @ (p - self.ref) @ c.T)
            for i, x in enumerate(xs):
                if any(abs(x - y) < 1e-7 for y in xs[:i]):
                    raise Rejected("duplicate amplitude")
            if len(xs) <= order:
                raise Rejected("insufficient points")
            new.append((vector, (np.array(xs), np.array(ys), order)))
        return new

    def adopt(self, new, real_vectors):
        """Commit, in the order and with the signs used by the real model.

        Returns an error message or None.
        """
        if len(real_vectors) != len(new):
            return f"{len(real_vectors)} degrees of freedom added instead of {len(new)}"
        left = list(new)
        for vector in real_vectors:
            match = [k for k, (v, _) in enumerate(left) if abs(abs(np.sum(v * vector)) - 1) < 1e-6]
            if len(match) != 1:
                return "an added degree of freedom is not a symmetry image of the given one"
            v, (xs, ys, order) = left.pop(match[0])
            sign = np.sign(np.sum(v * vector))
            if np.abs(vector - sign * v).max() > 1e-6:
                return "basis vector is not normalized"
            self.basis.append(sign * v)
            self.points.append((sign * xs, ys, order))
            self.mask.append(False)
        return None

    def images(self, u):
        """[(unit vector, Cartesian operation)] of u under all operations."""
        u = u / np.linalg.norm(u)
        return [(ref.transform_displacement(self.lattice, op, u), ref.cartesian(self.lattice, op[0])) for op in self.ops]

    def may_reject(self, u):
        """Whether some image of u overlaps with a degree of freedom which is already there."""
        return any(abs(np.sum(b * v)) > 1e-6 for b in self.basis for v, _ in self.images(u))

    def adopt_any(self, u, amplitudes, polarizabilities, order, include_ref, real_vectors):
        """Commit what the real model added for u, whose images may be oblique to each other.

        Any largest set of orthogonal images is right. The data have to obey the symmetry which
        leaves u as it is. Returns an error message or None.
        """
        images = self.images(u)
        if not len(real_vectors):
            return "no degree of freedom added"
        for v, _ in images:
            if max(abs(np.sum(v * r)) for r in real_vectors) < 1e-6:
                return "a degree of freedom is missing"
        for vector in real_vectors:
            members = {}
            for v, c in images:
                for sign in (1.0, -1.0):
                    if np.abs(v - sign * vector).max() < 1e-6:
                        members.setdefault(sign, c)
            if not members:
                return "an added degree of freedom is not a symmetry image of the given one"
            xs, ys = ([0.0], [np.zeros((3, 3))]) if include_ref else ([], [])
            for sign, c in members.items():
                for a, p in zip(amplitudes, polarizabilities):
                    xs.append(sign * a)
                    ys.append(c @ (p - self.ref) @ c.T)
            if any(abs(x - y) < 1e-7 for i, x in enumerate(xs) for y in xs[:i]):
                return "accepted in spite of duplicate amplitudes"
            if len(xs) <= order:
                return "accepted in spite of too few points"
            self.basis.append(vector)
            self.points.append((np.array(xs), np.array(ys), order))
            self.mask.append(False)
        gram = np.array([b.ravel() for b in self.basis])
        if np.abs(gram @ gram.T - np.eye(len(gram))).max() > 1e-6:
            return "degrees of freedom are not orthogonal"
        return None

    # -- predictions
    def predict(self, positions_batch, mask=None):
        mask = self.mask if mask is None else mask
        out = []
        for positions in positions_batch:
            cart = ref.min_image(positions - self.positions) @ self.lattice
            value = self.ref.copy()
            for b, (xs, ys, order), hidden in zip(self.basis, self.points, mask):
                if not hidden:
                    value = value + ref.spline_value(xs, ys, order, float(np.sum(b * cart)))
            out.append(value)
        return np.array(out).reshape(-1, 3, 3)

    def probes(self, amplitude=0.04):
        """Positions around the reference: the reference, along the DOFs and generic."""
        inv = np.linalg.inv(self.lattice)
        n = len(self.positions)
        out = [self.positions]
        for k in range(4):
            out.append(self.positions + ref.fill((n, 3), 60 + k, amplitude) @ inv)
        for k, b in enumerate(self.basis):
            out.append(self.positions + (amplitude * (1 - 2 * (k % 2)) * b) @ inv)
        return np.array(out)
