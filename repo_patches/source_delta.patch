From 53f61a31e8a89fa80e9d09af660c200b33f698f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 01/86] fix: return the Euler angles in case of gimbal lock

---
 .../tools/geometry_utils.py                   | 1038 +++++++++--------
 1 file changed, 520 insertions(+), 518 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index b2f4ce4..5abd1f6 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -1,518 +1,520 @@
-''' Helper functions for geometrical operations.
-'''
-from __future__ import division
-
-import logging
-
-import numpy as np
-
-
-def skew(v):
-    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
-    matr[::9] = v.flatten()[::3]
-    matr[4::9] = v.flatten()[1::3]
-    matr[8::9] = v.flatten()[2::3]
-    matr = matr.reshape(np.r_[v.shape, 3])
-
-    if len(v.shape) == 1:
-        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
-        return matr_skv - matr_skv.T
-    else:
-        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
-        return matr_skv - matr_skv.transpose((0, 2, 1))
-
-
-def get_plane_normal(direction_vector_1, direction_vector_2):
-    ''' Normal vector of a plane.
-
-    Plane is define by two non parallel direction vectors within the plane.
-
-    Parameters
-    ----------
-    direction_vector_1 : array
-        Array with x, y and z.
-    direction_vector_2 : array
-        Array with x, y and z.
-
-    Returns
-    -------
-    Array with x, y and z.
-    '''
-    return np.cross(direction_vector_1, direction_vector_2)
-
-
-def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
-    ''' Calculates the intersection of lines with a DUT.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    translation_x, translation_y, translation_z : float
-        The coordianates of the DUT (in um).
-    rotation_alpha, rotation_beta, rotation_gamma : float
-        The rotation angles of the DUT (in radians).
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    dut_position = np.array([
-        translation_x,
-        translation_y,
-        translation_z],
-        dtype=np.float64)
-    dut_rotation_matrix = rotation_matrix(
-        alpha=rotation_alpha,
-        beta=rotation_beta,
-        gamma=rotation_gamma)
-    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
-    dut_normal = basis_global[2]
-    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
-    if dut_normal[2] < 0:
-        dut_normal = -dut_normal
-    return get_line_intersections_with_plane(
-        line_origins=line_origins,
-        line_directions=line_directions,
-        position_plane=dut_position,
-        normal_plane=dut_normal)
-
-
-def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
-    ''' Calculates the intersection of n lines with one plane.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    position_plane : array
-        A array (x, y and z) to the plane.
-    normal_plane : array
-        The normal vector (x, y and z) of the plane.
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    # Calculate offsets and extend in missing dimension
-    offsets = position_plane[np.newaxis, :] - line_origins
-
-    # Precalculate to be able to avoid division by 0
-    # (line is parallel to the plane or in the plane)
-    norm_dot_off = np.dot(normal_plane, offsets.T)
-    # Dot product is transformed to be at least 1D for special n = 1
-    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
-                                        line_directions.T))
-
-    # Initialize result to nan
-    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
-
-    # Warn if some intersection cannot be calculated
-    if np.any(norm_dot_dir == 0):
-        raise
-        logging.warning('Some line plane intersection could not be calculated')
-
-    # Calculate t scalar for each line simultaniously, avoid division by 0
-    sel = norm_dot_dir != 0
-    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
-
-    # Calculate the intersections for each line with the plane
-    intersections = line_origins + line_directions * t[:, np.newaxis]
-
-    return intersections
-
-
-def cartesian_to_spherical(x, y, z):
-    ''' Does a transformation from cartesian to spherical coordinates.
-
-    Convention: r = 0 --> phi = theta = 0
-
-    Parameters
-    ----------
-    x, y, z : float
-        Position in cartesian space.
-
-    Returns
-    -------
-    Spherical coordinates phi, theta and r.
-    '''
-    r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
-    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
-    # Avoid division by zero
-    # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
-    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
-    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
-    return phi, theta, r
-
-
-def spherical_to_cartesian(phi, theta, r):
-    ''' Transformation from spherical to cartesian coordinates.
-
-    Including error checks.
-
-    Parameters
-    ----------
-    phi, theta, r : float
-        Position in spherical space.
-
-    Returns
-    -------
-    Cartesian coordinates x, y and z.
-    '''
-    if np.any(r < 0):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
-    if np.any(theta < 0) or np.any(theta >= np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
-    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
-    x = r * np.cos(phi) * np.sin(theta)
-    y = r * np.sin(phi) * np.sin(theta)
-    z = r * np.cos(theta)
-
-    return x, y, z
-
-
-def rotation_matrix_x(alpha):
-    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[1, 0, 0],
-                     [0, np.cos(alpha), -np.sin(alpha)],
-                     [0, np.sin(alpha), np.cos(alpha)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_y(beta):
-    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    beta : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(beta), 0, np.sin(beta)],
-                     [0, 1, 0],
-                     [-np.sin(beta), 0, np.cos(beta)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_z(gamma):
-    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    gamma : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
-                     [np.sin(gamma), np.cos(gamma), 0],
-                     [0, 0, 1]],
-                    dtype=np.float64)
-
-
-def rotation_matrix(alpha, beta, gamma):
-    ''' Calculates the rotation matrix for the rotation around the three cartesian
-    axis x, y, z in a right-handed coordinate system.
-
-    Note
-    ----
-    The matrix represents a rotation around the x axis, then the y axis,
-    and then the z axis in a right-handed coordinate system.
-
-    Remember:
-        - Transform to the locale coordinate system before applying rotations
-        - Rotations are associative but not commutative
-
-    Usage
-    -----
-        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
-        coordinate system can be done by:
-            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
-
-
-def euler_angles(R):
-    ''' Calculates the Euler angles from rotation matrix R.
-
-    Note
-    ----
-    In a right-handed system. The rotation is done around x then y then z.
-
-    Note:
-        - Transform to the local coordinate system before applying rotations
-        - Rotations are associative but not commutative
-        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
-          In this case, gamma is set to zero.
-
-    Parameters
-    ----------
-    R : array
-        Rotation matrix.
-
-    Returns
-    -------
-    Returns Euler angles alpha, beta and gamma.
-    '''
-    def is_rotation_matrix(R):
-        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
-        return np.isclose(0.0, norm)
-
-    if not is_rotation_matrix(R):
-        raise ValueError("%s is not a rotation matrix" % str(R))
-
-    if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
-    elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
-    else:
-        beta_1 = -np.arcsin(R[2, 0])
-        # for very small values use 0.0 and remove minus sign from 0.0
-        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
-            beta_1 = 0.0
-        beta_2 = np.pi - beta_1
-        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
-        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
-            alpha_1 = 0.0
-        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
-        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
-            alpha_2 = 0.0
-        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
-        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
-            gamma_1 = 0.0
-        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
-        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
-            gamma_2 = 0.0
-        # # chose the angles with smaller values
-        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
-        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
-        # else:
-        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
-    return alpha_1, beta_1, gamma_1
-
-
-def translation_matrix(x, y, z):
-    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
-
-    Note
-    ----
-    Remember: Translations are associative and commutative
-
-    Usage
-    -----
-        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
-          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
-    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
-
-    return translation_matrix.T
-
-
-def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a translation and rotation.
-
-    Translation is T=(-x, -y, -z) to the local coordinate system followed
-    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
-
-    Note
-    ----
-        - This function is the inverse of
-          local_to_global_transformation_matrix()
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations are not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
-
-    # Get translation matrix T
-    T = translation_matrix(x=-x, y=-y, z=-z)
-
-    return np.dot(R, T)
-
-
-def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a inverse translation and rotation.
-
-    Inverse rotation in the local coordinate system followed by an inverse
-    translation by x, y, z to the global coordinate system.
-
-    Note
-    ----
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations do not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend inverse rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
-
-    # Get inverse translation matrix T
-    T = translation_matrix(x=x, y=y, z=z)
-
-    return np.dot(T, R)
-
-
-def apply_transformation_matrix(x, y, z, transformation_matrix):
-    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of y coordinates.
-    z : array
-        Array of z coordinates.
-
-    Returns
-    -------
-    Array with transformed coordinates.
-    '''
-    # Add extra 4th dimension
-    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
-
-    # Transform and delete extra dimension
-    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-
-
-def apply_rotation_matrix(x, y, z, rotation_matrix):
-    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of x coordinates.
-    z : array
-        Array of x coordinates.
-
-    Returns
-    -------
-    Array with rotated coordinates.
-    '''
-    pos = np.column_stack((x, y, z)).T
-    pos_transformed = np.dot(rotation_matrix, pos).T
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+''' Helper functions for geometrical operations.
+'''
+from __future__ import division
+
+import logging
+
+import numpy as np
+
+
+def skew(v):
+    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
+    matr[::9] = v.flatten()[::3]
+    matr[4::9] = v.flatten()[1::3]
+    matr[8::9] = v.flatten()[2::3]
+    matr = matr.reshape(np.r_[v.shape, 3])
+
+    if len(v.shape) == 1:
+        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
+        return matr_skv - matr_skv.T
+    else:
+        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
+        return matr_skv - matr_skv.transpose((0, 2, 1))
+
+
+def get_plane_normal(direction_vector_1, direction_vector_2):
+    ''' Normal vector of a plane.
+
+    Plane is define by two non parallel direction vectors within the plane.
+
+    Parameters
+    ----------
+    direction_vector_1 : array
+        Array with x, y and z.
+    direction_vector_2 : array
+        Array with x, y and z.
+
+    Returns
+    -------
+    Array with x, y and z.
+    '''
+    return np.cross(direction_vector_1, direction_vector_2)
+
+
+def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
+    ''' Calculates the intersection of lines with a DUT.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    translation_x, translation_y, translation_z : float
+        The coordianates of the DUT (in um).
+    rotation_alpha, rotation_beta, rotation_gamma : float
+        The rotation angles of the DUT (in radians).
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    dut_position = np.array([
+        translation_x,
+        translation_y,
+        translation_z],
+        dtype=np.float64)
+    dut_rotation_matrix = rotation_matrix(
+        alpha=rotation_alpha,
+        beta=rotation_beta,
+        gamma=rotation_gamma)
+    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
+    dut_normal = basis_global[2]
+    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
+    if dut_normal[2] < 0:
+        dut_normal = -dut_normal
+    return get_line_intersections_with_plane(
+        line_origins=line_origins,
+        line_directions=line_directions,
+        position_plane=dut_position,
+        normal_plane=dut_normal)
+
+
+def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
+    ''' Calculates the intersection of n lines with one plane.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    position_plane : array
+        A array (x, y and z) to the plane.
+    normal_plane : array
+        The normal vector (x, y and z) of the plane.
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    # Calculate offsets and extend in missing dimension
+    offsets = position_plane[np.newaxis, :] - line_origins
+
+    # Precalculate to be able to avoid division by 0
+    # (line is parallel to the plane or in the plane)
+    norm_dot_off = np.dot(normal_plane, offsets.T)
+    # Dot product is transformed to be at least 1D for special n = 1
+    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
+                                        line_directions.T))
+
+    # Initialize result to nan
+    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
+
+    # Warn if some intersection cannot be calculated
+    if np.any(norm_dot_dir == 0):
+        raise
+        logging.warning('Some line plane intersection could not be calculated')
+
+    # Calculate t scalar for each line simultaniously, avoid division by 0
+    sel = norm_dot_dir != 0
+    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
+
+    # Calculate the intersections for each line with the plane
+    intersections = line_origins + line_directions * t[:, np.newaxis]
+
+    return intersections
+
+
+def cartesian_to_spherical(x, y, z):
+    ''' Does a transformation from cartesian to spherical coordinates.
+
+    Convention: r = 0 --> phi = theta = 0
+
+    Parameters
+    ----------
+    x, y, z : float
+        Position in cartesian space.
+
+    Returns
+    -------
+    Spherical coordinates phi, theta and r.
+    '''
+    r = np.sqrt(x * x + y * y + z * z)
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
+    # Avoid division by zero
+    # https://en.wikipedia.org/wiki/Atan2
+    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
+    return phi, theta, r
+
+
+def spherical_to_cartesian(phi, theta, r):
+    ''' Transformation from spherical to cartesian coordinates.
+
+    Including error checks.
+
+    Parameters
+    ----------
+    phi, theta, r : float
+        Position in spherical space.
+
+    Returns
+    -------
+    Cartesian coordinates x, y and z.
+    '''
+    if np.any(r < 0):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
+    if np.any(theta < 0) or np.any(theta >= np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
+    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
+    x = r * np.cos(phi) * np.sin(theta)
+    y = r * np.sin(phi) * np.sin(theta)
+    z = r * np.cos(theta)
+
+    return x, y, z
+
+
+def rotation_matrix_x(alpha):
+    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[1, 0, 0],
+                     [0, np.cos(alpha), -np.sin(alpha)],
+                     [0, np.sin(alpha), np.cos(alpha)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_y(beta):
+    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    beta : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(beta), 0, np.sin(beta)],
+                     [0, 1, 0],
+                     [-np.sin(beta), 0, np.cos(beta)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_z(gamma):
+    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    gamma : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
+                     [np.sin(gamma), np.cos(gamma), 0],
+                     [0, 0, 1]],
+                    dtype=np.float64)
+
+
+def rotation_matrix(alpha, beta, gamma):
+    ''' Calculates the rotation matrix for the rotation around the three cartesian
+    axis x, y, z in a right-handed coordinate system.
+
+    Note
+    ----
+    The matrix represents a rotation around the x axis, then the y axis,
+    and then the z axis in a right-handed coordinate system.
+
+    Remember:
+        - Transform to the locale coordinate system before applying rotations
+        - Rotations are associative but not commutative
+
+    Usage
+    -----
+        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
+        coordinate system can be done by:
+            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
+
+
+def euler_angles(R):
+    ''' Calculates the Euler angles from rotation matrix R.
+
+    Note
+    ----
+    In a right-handed system. The rotation is done around x then y then z.
+
+    Note:
+        - Transform to the local coordinate system before applying rotations
+        - Rotations are associative but not commutative
+        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
+          In this case, gamma is set to zero.
+
+    Parameters
+    ----------
+    R : array
+        Rotation matrix.
+
+    Returns
+    -------
+    Returns Euler angles alpha, beta and gamma.
+    '''
+    def is_rotation_matrix(R):
+        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
+        return np.isclose(0.0, norm)
+
+    if not is_rotation_matrix(R):
+        raise ValueError("%s is not a rotation matrix" % str(R))
+
+    # allow for rounding errors, close to gimbal lock alpha and gamma are not defined
+    gimbal_limit = 1.0 - 1e-15
+    if R[2, 0] <= -gimbal_limit:
+        gamma_1 = 0.0  # gimbal lock
+        alpha_1 = gamma_1 + np.arctan2(R[0, 1], R[0, 2])
+        beta_1 = np.pi / 2
+    elif R[2, 0] >= gimbal_limit:
+        gamma_1 = 0.0  # gimbal lock
+        alpha_1 = -gamma_1 + np.arctan2(-R[0, 1], -R[0, 2])
+        beta_1 = -np.pi / 2
+    else:
+        beta_1 = -np.arcsin(R[2, 0])
+        # for very small values use 0.0 and remove minus sign from 0.0
+        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
+            beta_1 = 0.0
+        beta_2 = np.pi - beta_1
+        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
+        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
+            alpha_1 = 0.0
+        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
+        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
+            alpha_2 = 0.0
+        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
+        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
+            gamma_1 = 0.0
+        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
+        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
+            gamma_2 = 0.0
+        # # chose the angles with smaller values
+        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
+        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
+        # else:
+        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
+    return alpha_1, beta_1, gamma_1
+
+
+def translation_matrix(x, y, z):
+    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
+
+    Note
+    ----
+    Remember: Translations are associative and commutative
+
+    Usage
+    -----
+        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
+          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
+    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
+
+    return translation_matrix.T
+
+
+def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a translation and rotation.
+
+    Translation is T=(-x, -y, -z) to the local coordinate system followed
+    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
+
+    Note
+    ----
+        - This function is the inverse of
+          local_to_global_transformation_matrix()
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations are not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
+
+    # Get translation matrix T
+    T = translation_matrix(x=-x, y=-y, z=-z)
+
+    return np.dot(R, T)
+
+
+def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a inverse translation and rotation.
+
+    Inverse rotation in the local coordinate system followed by an inverse
+    translation by x, y, z to the global coordinate system.
+
+    Note
+    ----
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations do not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend inverse rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
+
+    # Get inverse translation matrix T
+    T = translation_matrix(x=x, y=y, z=z)
+
+    return np.dot(T, R)
+
+
+def apply_transformation_matrix(x, y, z, transformation_matrix):
+    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of y coordinates.
+    z : array
+        Array of z coordinates.
+
+    Returns
+    -------
+    Array with transformed coordinates.
+    '''
+    # Add extra 4th dimension
+    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
+
+    # Transform and delete extra dimension
+    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+
+
+def apply_rotation_matrix(x, y, z, rotation_matrix):
+    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of x coordinates.
+    z : array
+        Array of x coordinates.
+
+    Returns
+    -------
+    Array with rotated coordinates.
+    '''
+    pos = np.column_stack((x, y, z)).T
+    pos_transformed = np.dot(rotation_matrix, pos).T
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-- 
2.43.0


From 7b002f4e08a9334e3c86043376588a62b9cae7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 02/86] fix: set intersection to NaN for lines parallel to the
 plane instead of raising

---
 beam_telescope_analysis/tools/geometry_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 5abd1f6..47290e7 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -129,7 +129,6 @@ def get_line_intersections_with_plane(line_origins, line_directions, position_pl
 
     # Warn if some intersection cannot be calculated
     if np.any(norm_dot_dir == 0):
-        raise
         logging.warning('Some line plane intersection could not be calculated')
 
     # Calculate t scalar for each line simultaniously, avoid division by 0
-- 
2.43.0


From 1eb2e06af4e29fcf817565179051e73cb75a1a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:26 +0000
Subject: [PATCH 03/86] fix: azimuth of vectors with x = 0 and of vectors just
 below the x axis

---
 beam_telescope_analysis/tools/geometry_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 47290e7..c81e57d 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -156,12 +156,14 @@ def cartesian_to_spherical(x, y, z):
     Spherical coordinates phi, theta and r.
     '''
     r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = y = 0
     theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
     # Avoid division by zero
     # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    sel = np.logical_or(x != 0, y != 0)
+    phi[sel] = np.arctan2(y[sel], x[sel])
     phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    phi[phi >= 2. * np.pi] = 0.0  # rounding of very small negative phi
     theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
     return phi, theta, r
 
-- 
2.43.0


From 63b59f0efc5330bbd0bfd377c64d797b78ba8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 04/86] fix: handle empty event number arrays in C++ event
 functions

Empty arrays were read and written out of bounds.
---
 beam_telescope_analysis/cpp/AnalysisFunctions.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/cpp/AnalysisFunctions.h b/beam_telescope_analysis/cpp/AnalysisFunctions.h
index 55ef771..8e7251e 100644
--- a/beam_telescope_analysis/cpp/AnalysisFunctions.h
+++ b/beam_telescope_analysis/cpp/AnalysisFunctions.h
@@ -22,6 +22,8 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	unsigned int tActualResultIndex = 0;
+	if (rSizeArrayTwo == 0)  // no common events
+		return 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
 		if (rEventArrayOne[i] == tActualEventNumber)  // omit the same event number occuring again
 			continue;
@@ -43,6 +45,14 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 // Takes two event number arrays and returns a event number array with the maximum occurrence of each event number in array one and two
 unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, int64_t*& result, const unsigned int& rSizeArrayResult)
 {
+	if (rSizeArrayOne == 0 || rSizeArrayTwo == 0) {  // all events of the other array
+		const unsigned int tSize = std::max(rSizeArrayOne, rSizeArrayTwo);
+		const int64_t* tEventArray = (rSizeArrayOne == 0) ? rEventArrayTwo : rEventArrayOne;
+		if (tSize > rSizeArrayResult)
+			throw std::out_of_range("The result histogram is too small. Increase size.");
+		std::copy(tEventArray, tEventArray + tSize, result);
+		return tSize;
+	}
 	int64_t tFirstActualEventNumber = rEventArrayOne[0];
 	int64_t tSecondActualEventNumber = rEventArrayTwo[0];
 	int64_t tFirstLastEventNumber = rEventArrayOne[rSizeArrayOne - 1];
@@ -126,7 +136,10 @@ unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned i
 // Does the same as np.in1d but uses the fact that the arrays are sorted
 void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, uint8_t*& rSelection)
 {
-	rSelection[0] = true;
+	if (rSizeArrayTwo == 0) {  // nothing to select
+		std::fill(rSelection, rSelection + rSizeArrayOne, 0);
+		return;
+	}
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
-- 
2.43.0


From e707c9206146b8bb9e91b605c0fd13c12b7e89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 05/86] fix: get_data_in_event_range selects rows when all
 event numbers are zero or start is past the end

---
 beam_telescope_analysis/tools/analysis_utils.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 997388a..d8f20d4 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -416,8 +416,8 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
         hit array with the hits in the event range.
     '''
     event_number = array['event_number']
-    if not np.any(event_number):  # No events in selection
-        return np.array([])
+    if event_number.shape[0] == 0:  # No events in selection
+        return array
     if assume_sorted:
         data_event_start = event_number[0]
         data_event_stop = event_number[-1]
@@ -431,7 +431,7 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
             if event_number[0] > event_start:
                 min_index_data = 0
             else:
-                min_index_data = np.argmin(event_number < event_start)
+                min_index_data = np.searchsorted(event_number, event_start, side='left')
 
         if event_stop is None:
             max_index_data = event_number.shape[0]
@@ -445,7 +445,12 @@ def get_data_in_event_range(array, event_start=None, event_stop=None, assume_sor
             min_index_data = 0
         return array[min_index_data:max_index_data]
     else:
-        return array[ne.evaluate('(event_number >= event_start) & (event_number < event_stop)')]
+        selection = np.ones(event_number.shape, dtype=bool)
+        if event_start is not None:
+            selection &= event_number >= event_start
+        if event_stop is not None:
+            selection &= event_number < event_stop
+        return array[selection]
 
 
 def data_aligned_at_events(table, start_event_number=None, stop_event_number=None, start_index=None, stop_index=None, chunk_size=1000000, try_speedup=False, first_event_aligned=True, fail_on_missing_events=True):
-- 
2.43.0


From b60ad035fbb2fdd398927d641d84ee0e37caeba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 06/86] fix: data_aligned_at_events keeps the last event before
 stop_event_number with try_speedup

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index d8f20d4..9c45e08 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -597,7 +597,7 @@ def data_aligned_at_events(table, start_event_number=None, stop_event_number=Non
             else:
                 if last_event_in_chunk >= stop_event_number:
                     chunk_stop_index = np.searchsorted(array_chunk["event_number"], stop_event_number, side='left')
-                elif current_stop_index == table_max_rows:  # this will also add the last event of the table
+                elif current_stop_index == table_max_rows or (stop_index_known and current_stop_index == stop_index):  # this will also add the last event of the table
                     chunk_stop_index = array_chunk.shape[0]
                 else:
                     chunk_stop_index = np.searchsorted(array_chunk["event_number"], last_event_in_chunk, side='left')
-- 
2.43.0


From 46cfa2253a35833e424af87487e8e5b26e164cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:37 +0000
Subject: [PATCH 07/86] fix: convert_coordinates uses the output file name and
 restores the column/row of every hit

---
 beam_telescope_analysis/hit_analysis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f95c9e..3aae537 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -109,6 +109,8 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
 
     if output_hit_file is None:
         output_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
+    else:
+        output_file = output_hit_file
 
     with tb.open_file(input_hit_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
@@ -164,11 +166,14 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
                         column=data_chunk['column'],
                         row=data_chunk['row'])
                 else:
-                    out_data['column'], out_data['row'] = dut.local_position_to_index(
+                    column, row = dut.local_position_to_index(
                         x=data_chunk['x'],
                         y=data_chunk['y'],
                         # z=data_chunk['z'])
                         z=0.0)
+                    # nearest pixel center, the column/row data type is integer
+                    out_data['column'] = np.clip(np.rint(column), 1, dut.n_columns)
+                    out_data['row'] = np.clip(np.rint(row), 1, dut.n_rows)
 
                 out_table.append(out_data)
                 pbar.update(data_chunk.shape[0])
-- 
2.43.0


From 5d2fdd5812631f3f0de629fa8e454aa23d4ab050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 08/86] fix: SMC keeps the bin indices when summing
 N-dimensional histograms of different shape

---
 beam_telescope_analysis/tools/smc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 9f0f373..6a21c2d 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -289,12 +289,14 @@ class SMC(object):
                     out_tables[i].flush()
                 else:
                     # Check if array needs to be resized
-                    new_shape = np.maximum(hists[i].shape, res_data[i].shape)
-                    hists[i].resize(new_shape)
-                    # Copym resize and add array to result
-                    hist_copy = res_data[i].copy()
-                    hist_copy.resize(new_shape)
-                    hists[i] += hist_copy
+                    new_shape = tuple(np.maximum(hists[i].shape, res_data[i].shape))
+                    if new_shape != hists[i].shape:
+                        # Copy content, every bin has to keep its index
+                        new_hist = np.zeros(new_shape, dtype=hists[i].dtype)
+                        new_hist[tuple(slice(0, n) for n in hists[i].shape)] = hists[i]
+                        hists[i] = new_hist
+                    # Add array to result
+                    hists[i][tuple(slice(0, n) for n in res_data[i].shape)] += res_data[i]
 
         if not self.force_stop.is_set():
             for i, curr_node_desc in enumerate(self.node_desc):
-- 
2.43.0


From b1e40579f75573cb86374a859a7dd012c073af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 09/86] fix: SMC handles empty tables

The writer thread died with an unbound variable and left the output file open.
---
 beam_telescope_analysis/hit_analysis.py | 2 +-
 beam_telescope_analysis/tools/smc.py    | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 3aae537..e2ccefb 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1120,7 +1120,7 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
     # Calculate cluster size histogram
     def cluster_size_hist_func(clusters):
         n_hits = clusters['n_hits']
-        hist = analysis_utils.hist_1d_index(n_hits, shape=(np.max(n_hits) + 1,))
+        hist = analysis_utils.hist_1d_index(n_hits, shape=(np.max(n_hits, initial=0) + 1,))
         return hist
 
     smc.SMC(
diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 6a21c2d..da2ac07 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -179,7 +179,10 @@ class SMC(object):
         except Exception:
             self.force_stop.set()
             raise
-        gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
+        if node.shape[0] == 0:  # empty table, call function once on the empty table
+            gen_data = iter([(node.read(), 0)])
+        else:
+            gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
         while not self.force_stop.wait(0.01):
             try:
                 try:
-- 
2.43.0


From c5c7b411495e18ed388c506b5de22607e3f07de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 10/86] fix: SMC raises exceptions of its threads instead of
 hanging or writing incomplete output

---
 beam_telescope_analysis/tools/smc.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index da2ac07..c629d40 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -153,6 +153,7 @@ class SMC(object):
         self.reader_thread = None
         self.async_worker_thread = None
         self.writer_thread = None
+        self.in_file = None
         self.out_file = None
         self.out_file_opened = Event()
         self.force_stop = Event()
@@ -170,7 +171,7 @@ class SMC(object):
             in_file = self.out_file
         else:
             try:
-                in_file = tb.open_file(self.input_filename, mode='r')
+                in_file = self.in_file = tb.open_file(self.input_filename, mode='r')
             except Exception:
                 self.force_stop.set()
                 raise
@@ -331,20 +332,30 @@ class SMC(object):
             self.force_stop.set()
             raise
 
+    def _run_in_thread(self, func):
+        ''' Run func, store the first exception and stop all other threads.'''
+        try:
+            func()
+        except Exception as e:
+            if self.exception is None:
+                self.exception = e
+            self.force_stop.set()
+
     def split_map_combine(self):
         self.pool = Pool(self.n_cores)
 
         self.out_file_opened.clear()
         self.force_stop.clear()
-        self.writer_thread = Thread(target=self._writer, name='WriterThread')
+        self.exception = None
+        self.writer_thread = Thread(target=self._run_in_thread, args=(self._writer,), name='WriterThread')
         self.writer_thread.daemon = True
         self.writer_thread.start()
 
-        self.async_worker_thread = Thread(target=self._async_worker, name='AsyncWorkerThread')
+        self.async_worker_thread = Thread(target=self._run_in_thread, args=(self._async_worker,), name='AsyncWorkerThread')
         self.async_worker_thread.daemon = True
         self.async_worker_thread.start()
 
-        self.reader_thread = Thread(target=self._reader, name='ReaderThread')
+        self.reader_thread = Thread(target=self._run_in_thread, args=(self._reader,), name='ReaderThread')
         self.reader_thread.daemon = True
         self.reader_thread.start()
 
@@ -361,6 +372,13 @@ class SMC(object):
         self.pool.join()
         self.pool = None
 
+        if self.exception is not None:
+            # make sure that the files are not left open
+            for h5_file in (self.in_file, self.out_file):
+                if h5_file is not None and h5_file.isopen:
+                    h5_file.close()
+            raise self.exception
+
 
 if __name__ == '__main__':
     pass
-- 
2.43.0


From 63b8dd32419fe5f56d38745bc12a46529a1e3349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 11/86] fix: number of bins of the correlation histograms

The number of bins was one too small due to rounding for some resolutions and
hits were counted outside of the histogram.
---
 beam_telescope_analysis/hit_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index e2ccefb..8f37688 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -321,8 +321,8 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
             hist_y_size = math.ceil(y_size / resolution[1]) * resolution[1]
             hist_y_extent = [y_center - hist_y_size / 2.0, y_center + hist_y_size / 2.0]
             # Creating histograms for the correlation
-            x_correlation = np.zeros([int(hist_x_size / resolution[0]), int(hist_x_size / resolution[0])], dtype=np.int32)
-            y_correlation = np.zeros([int(hist_y_size / resolution[1]), int(hist_y_size / resolution[1])], dtype=np.int32)
+            x_correlation = np.zeros([int(round(hist_x_size / resolution[0])), int(round(hist_x_size / resolution[0]))], dtype=np.int32)
+            y_correlation = np.zeros([int(round(hist_y_size / resolution[1])), int(round(hist_y_size / resolution[1]))], dtype=np.int32)
 
             # shape_column = (dut.n_columns, dut.n_columns)
             # shape_row = (dut.n_rows, dut.n_rows)
@@ -1339,8 +1339,8 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                 dut_hist_y_size = math.ceil(dut_y_size / resolution[1]) * resolution[1]
                 dut_hist_y_extent.append([dut_y_center - dut_hist_y_size / 2.0, dut_y_center + dut_hist_y_size / 2.0])
                 # Creating histograms for the correlation
-                x_correlations.append(np.zeros([int(dut_hist_x_size / resolution[0]), int(ref_hist_x_size / resolution[0])], dtype=np.int32))
-                y_correlations.append(np.zeros([int(dut_hist_y_size / resolution[1]), int(ref_hist_y_size / resolution[1])], dtype=np.int32))
+                x_correlations.append(np.zeros([int(round(dut_hist_x_size / resolution[0])), int(round(ref_hist_x_size / resolution[0]))], dtype=np.int32))
+                y_correlations.append(np.zeros([int(round(dut_hist_y_size / resolution[1])), int(round(ref_hist_y_size / resolution[1]))], dtype=np.int32))
                 # Store the loop indices for speed up
                 start_indices.append(None)
 
-- 
2.43.0


From 9a29a0b7232e43cae4c6fa0c6eb86a0a622e1e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 12/86] fix: process the input files with the DUTs given by
 select_duts in any order

---
 beam_telescope_analysis/hit_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 8f37688..0522f99 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -66,7 +66,7 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_hit_files is not None and len(select_duts) != len(output_hit_files):
@@ -220,7 +220,7 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_check_files is not None and len(select_duts) != len(output_check_files):
@@ -475,7 +475,7 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_mask_files is not None and len(select_duts) != len(output_mask_files):
@@ -715,7 +715,7 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    selected_telescope_duts = [list(telescope)[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if input_mask_files is not None and len(select_duts) != len(input_mask_files):
-- 
2.43.0


From f42c3bdb40a4b9ce7959569769ce63a3446e6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 13/86] fix: store the seed position of clusters as float when
 using local positions

---
 beam_telescope_analysis/hit_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 0522f99..d2cc0a4 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -998,8 +998,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
             ('n_hits', '<u4'),
             ('charge', '<f4'),
             ('frame', '<u2'),
-            ('seed_x', '<u2'),
-            ('seed_y', '<u2'),
+            ('seed_x', '<f8'),
+            ('seed_y', '<f8'),
             ('mean_x', '<f8'),
             ('mean_y', '<f8')])
     else:
-- 
2.43.0


From 4ee682272005ff64312741bf29e4bcf13b940626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 14/86] fix: do not return the buffers of the clusterizer

They are overwritten by the next chunk when using a single core.
---
 beam_telescope_analysis/hit_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index d2cc0a4..f39a1ec 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1099,7 +1099,8 @@ def cluster_hits(dut, input_hit_file, output_cluster_file=None, input_mask_file=
                 else:
                     new_cluster_hits[name] = cluster_hits[name]
             cluster_hits = new_cluster_hits
-        return cluster_hits, clusters  # return hits array with additional columns for cluster ID, and cluster array
+        # copy data and data type, both are used again by the clusterizer for the next chunk
+        return cluster_hits.astype(cluster_hits.dtype.descr), clusters.astype(clusters.dtype.descr)  # return hits array with additional columns for cluster ID, and cluster array
 
     smc.SMC(
         input_filename=input_hit_file,
-- 
2.43.0


From 6ed38740cde08028ef82f9e4b6670b3acb4fd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 15/86] fix: check_file stores the event distance after event 0
 and reports positions exceeding the limits

---
 beam_telescope_analysis/hit_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index f39a1ec..2348883 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -363,9 +363,9 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                     x_extent = dut.x_extent()
                     y_extent = dut.y_extent()
                     if np.any(data_chunk['x'] < x_extent[0]) or np.any(data_chunk['x'] > x_extent[1]):
-                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.x_extent[0], dut.x_extent[1]))
+                        raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (x_extent[0], x_extent[1]))
                     if np.any(data_chunk['y'] < y_extent[0]) or np.any(data_chunk['y'] > y_extent[1]):
-                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (dut.y_extent[0], dut.y_extent[1]))
+                        raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (y_extent[0], y_extent[1]))
 
                 if use_clusters:
                     if use_positions:
@@ -389,7 +389,7 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
-                if last_event:
+                if last_event is not None:
                     event_delta = np.concatenate((np.array([event_numbers[0] - last_event]),
                                                   event_delta))
                 last_event = event_numbers[-1]
-- 
2.43.0


From 2dc49dadf972e2c5c1a76023b4e3afff1a3579b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 16/86] fix: check_file works with cluster files

---
 beam_telescope_analysis/hit_analysis.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 2348883..e3bbcf5 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -354,17 +354,18 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
             for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
+                x_name, y_name = (('mean_x', 'mean_y') if use_positions else ('mean_column', 'mean_row')) if use_clusters else (('x', 'y') if use_positions else ('column', 'row'))
                 if use_positions is False:
-                    if np.any(data_chunk['column'] < 1) or np.any(data_chunk['row'] < 1):
+                    if np.any(data_chunk[x_name] < 1) or np.any(data_chunk[y_name] < 1):
                         raise RuntimeError('The column/row index does not start at 1!')
-                    if np.any(data_chunk['column'] > dut.n_columns) or np.any(data_chunk['row'] > dut.n_rows):
+                    if np.any(data_chunk[x_name] > dut.n_columns) or np.any(data_chunk[y_name] > dut.n_rows):
                         raise RuntimeError('The column/row index exceeds the number of pixels (max. %s/%s)!' % (dut.n_columns, dut.n_rows))
                 if use_positions is True:
                     x_extent = dut.x_extent()
                     y_extent = dut.y_extent()
-                    if np.any(data_chunk['x'] < x_extent[0]) or np.any(data_chunk['x'] > x_extent[1]):
+                    if np.any(data_chunk[x_name] < x_extent[0]) or np.any(data_chunk[x_name] > x_extent[1]):
                         raise RuntimeError('The local x coordinates are exceeding the limits (min./max. %s/%s)!' % (x_extent[0], x_extent[1]))
-                    if np.any(data_chunk['y'] < y_extent[0]) or np.any(data_chunk['y'] > y_extent[1]):
+                    if np.any(data_chunk[y_name] < y_extent[0]) or np.any(data_chunk[y_name] > y_extent[1]):
                         raise RuntimeError('The local y coordinates are exceeding the limits (min./max. %s/%s)!' % (y_extent[0], y_extent[1]))
 
                 if use_clusters:
-- 
2.43.0


From 4edea456987a6b3ea7da896511f82816abde437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 17/86] fix: check_file detects decreasing event numbers in
 every chunk

Reading chunks aligned at events stops early if the event numbers are not sorted.
---
 beam_telescope_analysis/hit_analysis.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index e3bbcf5..a3289a9 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -350,6 +350,14 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                     complevel=5,
                     fletcher32=False))
 
+            # Check the full table before using chunks that are aligned at events, this assumes sorted event numbers
+            last_event_number = 0
+            for start_index in range(0, node.nrows, chunk_size):
+                event_numbers = node.read(start=start_index, stop=start_index + chunk_size, field='event_number')
+                if not np.all(np.diff(np.r_[last_event_number, event_numbers]) >= 0):
+                    raise RuntimeError('The event number does not always increase.')
+                last_event_number = event_numbers[-1]
+
             last_event_number = 0
             for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
-- 
2.43.0


From 2f157db79f095031d05ed2630cb2f9151808cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 18/86] fix: check_file correlates events across chunks

---
 beam_telescope_analysis/hit_analysis.py         | 14 ++++++++++----
 beam_telescope_analysis/tools/analysis_utils.py |  6 ++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index a3289a9..c0344a1 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -359,6 +359,7 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                 last_event_number = event_numbers[-1]
 
             last_event_number = 0
+            previous_hits = [np.empty(0, dtype=dtype) for dtype in (np.int64, np.uint32, np.uint32)]
             for data_chunk, _ in analysis_utils.data_aligned_at_events(table=node, chunk_size=chunk_size):
                 if not np.all(np.diff(np.r_[last_event_number, data_chunk['event_number']]) >= 0):
                     raise RuntimeError('The event number does not always increase.')
@@ -388,13 +389,18 @@ def check_file(dut, input_hit_file, output_check_file=None, event_range=1, resol
                         x_pos, y_pos, _ = dut.index_to_local_position(column=data_chunk['column'], row=data_chunk['row'])
                 x_indices = ((x_pos - hist_x_extent[0]) / resolution[0]).astype(np.uint32)
                 y_indices = ((y_pos - hist_y_extent[0]) / resolution[1]).astype(np.uint32)
+                # Add hits of the previous events that are in range
+                n_previous_hits = previous_hits[0].shape[0]
+                previous_hits = [np.concatenate(arrays) for arrays in zip(previous_hits, (data_chunk['event_number'], x_indices, y_indices))]
                 analysis_utils.correlate_hits_on_event_range(
-                    event_numbers=data_chunk['event_number'],
-                    x_indices=x_indices,
-                    y_indices=y_indices,
+                    event_numbers=previous_hits[0],
+                    x_indices=previous_hits[1],
+                    y_indices=previous_hits[2],
                     x_corr_hist=x_correlation,
                     y_corr_hist=y_correlation,
-                    event_range=event_range)
+                    event_range=event_range,
+                    start_index=n_previous_hits)
+                previous_hits = [array[previous_hits[0] > previous_hits[0][-1] - event_range] for array in previous_hits]
                 event_numbers = np.unique(data_chunk['event_number'])
                 event_delta = np.diff(event_numbers)
 
diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 9c45e08..2273f52 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -145,7 +145,7 @@ def correlate_position_on_event_number(ref_event_numbers, dut_event_numbers, ref
 
 
 @njit(locals={'curr_event_number': numba.int64, 'last_event_number': numba.int64, 'curr_index': numba.int64, 'corr_index': numba.int64})
-def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range):
+def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hist, y_corr_hist, event_range, start_index=0):
     """Correlating the hit indices of different events in a certain range.
     For unambiguous event building no correlation should be seen.
 
@@ -165,10 +165,12 @@ def correlate_hits_on_event_range(event_numbers, x_indices, y_indices, x_corr_hi
     event_range : uint
         The number of events to use for correlation,
         e.g., event_range = 1 correlates to predecessing event hits with the current event hits.
+    start_index : uint
+        The index of the first hit that is correlated with its predecessing hits.
     """
     last_event_number = -1
     # Loop over hits, outer loop
-    for curr_index in range(event_numbers.shape[0]):
+    for curr_index in range(start_index, event_numbers.shape[0]):
         curr_event_number = event_numbers[curr_index]
         # calculate new start index for inner loop if new event occurs
         if curr_event_number != last_event_number:
-- 
2.43.0


From 193a56d7d89571416b586109d4ae3bb856e769f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 19/86] fix: merge_cluster_data keeps the clusters of other
 DUTs after the last event of DUT0

---
 beam_telescope_analysis/hit_analysis.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index c0344a1..d53fa86 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1631,17 +1631,25 @@ def merge_cluster_data(telescope_configuration, input_cluster_files, output_merg
                 complevel=5,
                 fletcher32=False))
         with tb.open_file(input_cluster_files[0], mode='r') as in_file_h5:  # Open DUT0 cluster file
-            pbar = tqdm(total=in_file_h5.root.Clusters.shape[0], ncols=80)
+            n_clusters_dut_0 = in_file_h5.root.Clusters.shape[0]
+            pbar = tqdm(total=n_clusters_dut_0, ncols=80)
 
-            for actual_cluster_dut_0, start_indices_data_loop[0] in analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size):  # Loop over the cluster of DUT0 in chunks
+            clusters_dut_0 = analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size)
+            if n_clusters_dut_0 == 0:  # DUT0 has no clusters, merge the clusters of the other DUTs
+                clusters_dut_0 = [(in_file_h5.root.Clusters[:], 0)]
+            for actual_cluster_dut_0, start_indices_data_loop[0] in clusters_dut_0:  # Loop over the cluster of DUT0 in chunks
                 actual_event_numbers = actual_cluster_dut_0['event_number']
+                # Last chunk of DUT0 has to contain all remaining clusters of the other DUTs
+                actual_stop_event_number = None if start_indices_data_loop[0] == n_clusters_dut_0 else actual_event_numbers[-1] + 1
 
                 # First loop: calculate the minimum event number indices needed to merge all cluster from all files to this event number index
                 common_event_numbers = actual_event_numbers
                 for dut_index, cluster_file in enumerate(input_cluster_files[1:], start=1):  # Loop over the other cluster files
                     with tb.open_file(cluster_file, mode='r') as actual_in_file_h5:  # Open DUT0 cluster file
-                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_event_numbers[-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
+                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_stop_event_number, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
                             common_event_numbers = analysis_utils.get_max_events_in_both_arrays(common_event_numbers, actual_cluster['event_number'])
+                if common_event_numbers.shape[0] == 0:  # no clusters at all
+                    break
                 # array with merged DUT data
                 merged_cluster_array = np.zeros(shape=(common_event_numbers.shape[0],), dtype=description)
                 # set default values
-- 
2.43.0


From 15448e9cad6667a506129e68d6b133e54a15647e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 20/86] fix: select_tracks with query string

Variables cannot be exposed by exec() inside of a function in Python 3.
---
 beam_telescope_analysis/tools/data_selection.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8305787..fac8dc2 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -2,7 +2,6 @@
 from __future__ import division
 
 import logging
-import re
 import os
 from collections.abc import Iterable
 
@@ -479,7 +478,4 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
 
 
 def table_where(arr, query_str):
-    for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
-        exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
-
-    return arr[ne.evaluate(query_str, casting="safe")]
+    return arr[ne.evaluate(query_str, local_dict={name: arr[name] for name in arr.dtype.names}, casting="safe")]
-- 
2.43.0


From 77552c643dfedd8bd521d719c477f97592766f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 21/86] fix: division by zero in case of all events are
 selected before the last chunk

---
 beam_telescope_analysis/tools/data_selection.py | 8 ++++----
 beam_telescope_analysis/track_analysis.py       | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index fac8dc2..d7c6786 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -160,8 +160,8 @@ def reduce_events(input_file, max_events, output_file=None, chunk_size=1000000):
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                     else:
                         # calculate correction of number of selected events
-                        correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-                            + (index_chunk) / total_n_tracks * 1 / (((last_index_chunk) / total_n_tracks) / ((total_n_events_stored_last) / max_events))
+                        correction = (total_n_tracks - index_chunk) / total_n_tracks * ((max_events - total_n_events_stored_last) / max_events) / ((total_n_tracks - last_index_chunk) / total_n_tracks) \
+                            + (index_chunk) / total_n_tracks * ((total_n_events_stored_last) / max_events) / ((last_index_chunk) / total_n_tracks)
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks) * correction))
                     # do not store more events than in current chunk
                     select_n_events = min(n_events_chunk, select_n_events)
@@ -442,8 +442,8 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                         else:
                             # calculate correction of number of selected events
-                            correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-                                + (index_chunk) / total_n_tracks * 1 / (((last_index_chunk) / total_n_tracks) / ((total_n_events_stored_last) / max_events))
+                            correction = (total_n_tracks - index_chunk) / total_n_tracks * ((max_events - total_n_events_stored_last) / max_events) / ((total_n_tracks - last_index_chunk) / total_n_tracks) \
+                                + (index_chunk) / total_n_tracks * ((total_n_events_stored_last) / max_events) / ((last_index_chunk) / total_n_tracks)
                             # select_n_events = np.ceil(n_events_chunk * correction)
                             # calculate correction of number of selected events
                             # correction = 1/(((total_n_tracks-last_index_chunk)/total_n_tracks_last)/((max_events-total_n_events_stored_last)/max_events))
diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 6fd1a04..8f5e9a7 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -215,8 +215,8 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                     else:
                         # calculate correction of number of selected events
-                        correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-                            + (index_chunk) / total_n_tracks * 1 / (((last_index_chunk) / total_n_tracks) / ((total_n_events_stored_last) / max_events))
+                        correction = (total_n_tracks - index_chunk) / total_n_tracks * ((max_events - total_n_events_stored_last) / max_events) / ((total_n_tracks - last_index_chunk) / total_n_tracks) \
+                            + (index_chunk) / total_n_tracks * ((total_n_events_stored_last) / max_events) / ((last_index_chunk) / total_n_tracks)
                         select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks) * correction))
                     # do not store more events than in current chunk
                     select_n_events = min(n_events_chunk, select_n_events)
@@ -897,8 +897,8 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                             select_n_events = int(round(max_events * (n_tracks_chunk / total_n_tracks)))
                         else:
                             # calculate correction of number of selected events
-                            correction = (total_n_tracks - index_chunk) / total_n_tracks * 1 / (((total_n_tracks - last_index_chunk) / total_n_tracks) / ((max_events - total_n_events_stored_last) / max_events)) \
-                                + (index_chunk) / total_n_tracks * 1 / (((last_index_chunk) / total_n_tracks) / ((total_n_events_stored_last) / max_events))
+                            correction = (total_n_tracks - index_chunk) / total_n_tracks * ((max_events - total_n_events_stored_last) / max_events) / ((total_n_tracks - last_index_chunk) / total_n_tracks) \
+                                + (index_chunk) / total_n_tracks * ((total_n_events_stored_last) / max_events) / ((last_index_chunk) / total_n_tracks)
                             # select_n_events = np.ceil(n_events_chunk * correction)
                             # calculate correction of number of selected events
                             # correction = 1/(((total_n_tracks-last_index_chunk)/total_n_tracks_last)/((max_events-total_n_events_stored_last)/max_events))
-- 
2.43.0


From 2b8e76298eeaa36ae8131d37b0bdb2d47352e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 22/86] fix: division by zero in select_tracks in case of no
 selected tracks

---
 beam_telescope_analysis/tools/data_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index d7c6786..ca4c8d4 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -472,7 +472,7 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                     # total_n_tracks_last = total_n_tracks
                     last_index_chunk = index_chunk
                 pbar.close()
-                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / total_n_tracks, 100.0 * n_tracks_hit_mask / total_n_tracks, 100.0 * n_tracks_quality_mask / n_tracks_hit_mask, 100.0 * n_tracks_iso_track_mask / n_tracks_quality_mask, 100.0 * n_tracks_iso_hit_mask / n_tracks_iso_track_mask, 100.0 * n_tracks_query / n_tracks_iso_hit_mask))
+                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / max(1, total_n_tracks), 100.0 * n_tracks_hit_mask / max(1, total_n_tracks), 100.0 * n_tracks_quality_mask / max(1, n_tracks_hit_mask), 100.0 * n_tracks_iso_track_mask / max(1, n_tracks_quality_mask), 100.0 * n_tracks_iso_hit_mask / max(1, n_tracks_iso_track_mask), 100.0 * n_tracks_query / max(1, n_tracks_iso_hit_mask)))
 
     return output_tracks_file
 
-- 
2.43.0


From 2c17fb8198a98e958db90390ff6fea7f6ee49fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:15 +0000
Subject: [PATCH 23/86] fix: combine_files with empty tables

---
 beam_telescope_analysis/tools/data_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index ca4c8d4..8c7ce7b 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -99,7 +99,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].append(data_chunk)
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
-                        last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                        if table.nrows > 0:
+                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From 372754db63a08fa08f8e0e69107b420bee3d508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:09 +0000
Subject: [PATCH 24/86] fix: decode Morton codes of coordinates larger than 16
 bit

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 2273f52..a40e4b7 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1018,7 +1018,7 @@ def morton_1(x):
     x = (x | (x >> 2)) & 0x0F0F0F0F0F0F0F0F
     x = (x | (x >> 4)) & 0x00FF00FF00FF00FF
     x = (x | (x >> 8)) & 0x0000FFFF0000FFFF
-    x = (x | (x >> 16)) & 0xFFFFFFFFFFFFFFFF  # TODO: 0x00000000FFFFFFFF
+    x = (x | (x >> 16)) & 0x00000000FFFFFFFF
     return x
 
 
-- 
2.43.0


From f1c3f4bff9ff4601ebb199a5c3b9cdecc9a78b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 25/86] fix: store arguments with non-ASCII characters

---
 beam_telescope_analysis/tools/storage_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/storage_utils.py b/beam_telescope_analysis/tools/storage_utils.py
index 2014297..d0c7f5b 100644
--- a/beam_telescope_analysis/tools/storage_utils.py
+++ b/beam_telescope_analysis/tools/storage_utils.py
@@ -48,7 +48,7 @@ def save_configuration_dict(output_file, table_name, dictionary, group_name="con
         row_scan_param = scan_param_table.row
         for key, value in dictionary.items():
             row_scan_param['name'] = key
-            row_scan_param['value'] = str(value)
+            row_scan_param['value'] = str(value).encode('utf-8')
             row_scan_param.append()
         if isinstance(date_created, float):
             scan_param_table.attrs.date_created = time.asctime(time.localtime(date_created))
-- 
2.43.0


From 96567f45ea4f4626e83481dd4319bd9e476a442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:40 +0000
Subject: [PATCH 26/86] fix: do not permute columns of other DUTs in case of
 more than 10 DUTs

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 8f5e9a7..b554710 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -287,7 +287,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 # copy the columns to the result array
                 for dut_index in range(n_duts):
                     for column_name in tracklets_data_chunk.dtype.names:
-                        if 'dut_%d' % dut_index in column_name:
+                        if column_name.endswith('_dut_%d' % dut_index):
                             tracklets_data_chunk[column_name] = tracklets_data_chunk[column_name][indices[:, dut_index]]
                 # calculate new hit flags
                 for dut_index in range(n_duts):
-- 
2.43.0


From 9f6669eccf9480439fe39789ba76dff6dc756cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 27/86] fix: fit_tracks with keep_data

---
 beam_telescope_analysis/track_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index b554710..4581623 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -887,7 +887,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
 
                     unique_events = np.unique(track_candidates_chunk["event_number"][select_tracks_for_storage])
                     n_events_chunk = unique_events.shape[0]
-                    if n_events_chunk == 0:
+                    if n_events_chunk == 0 and not keep_data:
                         continue
 
                     if max_events:
@@ -1398,9 +1398,9 @@ def create_results_array(n_duts, dut_offsets, dut_slopes, track_chi2s, track_chi
                 tracks_array['slope_z_dut_%d' % index_dut][~select_fit_tracks] = np.nan
         tracks_array['track_chi2'][select_fit_tracks] = track_chi2s
         tracks_array['track_chi2'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2_red
+        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2s_red
         tracks_array['track_chi_red'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2_prob
+        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2s_prob
         tracks_array['track_chi_prob'][~select_fit_tracks] = np.nan
         tracks_array['quality_flag'][select_fit_tracks] = quality_flag
         tracks_array['quality_flag'][~select_fit_tracks] = 0
-- 
2.43.0


From c3259914c1f72af5c0c29bc087b1e464c4a6ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:49 +0000
Subject: [PATCH 28/86] fix: find_tracks with empty list of extrapolation DUTs

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 4581623..8072fcf 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -9,7 +9,7 @@ from collections.abc import Iterable
 
 import tables as tb
 import numpy as np
-from numba import njit
+from numba import njit, int64
 from numba.typed import List
 from scipy.stats import gaussian_kde
 from scipy.stats import chi2
@@ -75,7 +75,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
         raise ValueError("Invalid value for select_extrapolation_duts")
 
     # Create typed list for numba (see http://numba.pydata.org/numba-doc/latest/reference/deprecation.html#deprecation-of-reflection-for-list-and-set-types)
-    typed_select_extrapolation_duts = List()
+    typed_select_extrapolation_duts = List.empty_list(int64)
     [typed_select_extrapolation_duts.append(x) for x in select_extrapolation_duts]
     select_extrapolation_duts = typed_select_extrapolation_duts
 
-- 
2.43.0


From 670871cc70da8f3a2bb118b63badca838ef3972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:46 +0000
Subject: [PATCH 29/86] fix: reference states of the Kalman Filter for planes
 not sorted along the beam

---
 beam_telescope_analysis/tools/kalman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 6aadc87..7ea9ba9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -830,7 +830,7 @@ class KalmanFilter(object):
             initial_state_covariance=initial_state_covariance)
 
         # Improve track_seed
-        track_seed = reference_states[:, 0, :] + filtered_states_b[:, 0, :]
+        track_seed = reference_states[:, z_sorted_dut_indices[0], :] + filtered_states_b[:, z_sorted_dut_indices[0], :]
 
         # Extrapolate track_seed and store as reference state
         for i, dut_index in enumerate(z_sorted_dut_indices):
@@ -842,7 +842,7 @@ class KalmanFilter(object):
                     beta=seed_dut.rotation_beta,
                     gamma=seed_dut.rotation_gamma)
                 seed_dut_position = np.array([seed_dut.translation_x, seed_dut.translation_y, seed_dut.translation_z])
-                reference_states[:, i, :] = track_seed
+                reference_states[:, dut_index, :] = track_seed
 
             else:
                 rotation_matrix_actual_dut = geometry_utils.rotation_matrix(
@@ -851,7 +851,7 @@ class KalmanFilter(object):
                     gamma=actual_dut.rotation_gamma)
                 actual_dut_position = np.array([actual_dut.translation_x, actual_dut.translation_y, actual_dut.translation_z])
                 # Extrapolate track seed
-                reference_states[:, i, :] = _extrapolate_state(
+                reference_states[:, dut_index, :] = _extrapolate_state(
                     track_state=track_seed,
                     dut_position=np.tile(seed_dut_position, reps=(track_seed.shape[0], 1)),
                     target_dut_position=np.tile(actual_dut_position, reps=(track_seed.shape[0], 1)),
-- 
2.43.0


From 5f10cef724b510adc421a7167158ac0486c68398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:46 +0000
Subject: [PATCH 30/86] fix: Kalman Filter with scattering planes

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 8072fcf..19f0803 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1666,7 +1666,7 @@ def _fit_tracks_kalman_loop(track_hits, telescope, select_fit_duts, beam_energy,
     # Express observation covariance matrices.
     observation_covariances = np.zeros((chunk_size, n_duts, 2, 2), dtype=np.float64)
     # Take cluster hit position error (effective CS1 pitch) as measurement error in case no intrinsic resolution is defined.
-    for i, dut in enumerate(all_dut_planes):
+    for i, dut in enumerate(telescope):
         if dut.intrinsic_resolution is None:
             observation_covariances[:, i, 0, 0] = np.square(track_hits[:, i, 3]) * alpha[i]
             observation_covariances[:, i, 1, 1] = np.square(track_hits[:, i, 4]) * alpha[i]
-- 
2.43.0


From 43d4bf769c009343502aa1477164fe0e88394269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:29 +0000
Subject: [PATCH 31/86] fix: Kalman Filter with scattering plane in front of
 the telescope

The track seed is calculated at the first plane along the beam, but
ScatteringPlane did not implement the coordinate transformation.
---
 beam_telescope_analysis/telescope/dut.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/beam_telescope_analysis/telescope/dut.py b/beam_telescope_analysis/telescope/dut.py
index ff59691..87db580 100644
--- a/beam_telescope_analysis/telescope/dut.py
+++ b/beam_telescope_analysis/telescope/dut.py
@@ -577,6 +577,10 @@ class ScatteringPlane(Dut):
     def __init__(self, name, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma, x_limit=None, y_limit=None, material_budget=None, intrinsic_resolution=None):
         super(ScatteringPlane, self).__init__(name=name, translation_x=translation_x, translation_y=translation_y, translation_z=translation_z, rotation_alpha=rotation_alpha, rotation_beta=rotation_beta, rotation_gamma=rotation_gamma, x_limit=x_limit, y_limit=y_limit, material_budget=material_budget, intrinsic_resolution=intrinsic_resolution)
 
+    # the transformation depends on translation and rotation only
+    local_to_global_position = RectangularPixelDut.local_to_global_position
+    global_to_local_position = RectangularPixelDut.global_to_local_position
+
 
 class Diamond3DpCVD(FEI4):
     dut_attributes = ["name", "translation_x", "translation_y", "translation_z", "rotation_alpha", "rotation_beta", "rotation_gamma", "x_limit", "y_limit", "material_budget", "intrinsic_resolution", "sensor_position"]
-- 
2.43.0


From 88443af3cd4da13884f67b518ff40e82ddfaaa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:55 +0000
Subject: [PATCH 32/86] fix: weighted mean of forward and backward filter
 counts hits twice

The filtered states of both filters contain the hit of the actual plane. Use
the prediction of the backward filter for the smoothed state.
---
 beam_telescope_analysis/tools/kalman.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 7ea9ba9..c5c63f9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -908,8 +908,9 @@ class KalmanFilter(object):
                     smoothed_states[:, dut_index] = filtered_states_f[:, dut_index]
                     smoothed_state_covariances[:, dut_index] = filtered_state_covariances_f[:, dut_index]
                 else:  # Calculate weigted mean of backward and forward filter result
-                    xb = filtered_states_b[:, dut_index]
-                    Cb = filtered_state_covariances_b[:, dut_index]
+                    # The predicted state of the backward filter does not contain the hit of the actual plane, which is already contained in the forward filter result
+                    xb = predicted_states_b[:, dut_index]
+                    Cb = predicted_state_covariances_b[:, dut_index]
                     xf = filtered_states_f[:, dut_index]
                     Cf = filtered_state_covariances_f[:, dut_index]
                     Cf_inv = _mat_inverse(Cf)
-- 
2.43.0


From 2ad6ff4d344c80360e28e049345998d1862b0b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 33/86] fix: apply_alignment with files containing the function
 arguments

---
 beam_telescope_analysis/dut_alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e552c..62085c2 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -154,6 +154,8 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
     with tb.open_file(input_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
             for node in in_file_h5.root:  # Loop over potential hit tables in data file
+                if not isinstance(node, tb.Table):  # e.g. group with the function arguments
+                    continue
                 logging.info('== Apply alignment to node %s ==', node.name)
                 hits_aligned_table = out_file_h5.create_table(
                     where=out_file_h5.root,
-- 
2.43.0


From 6dc8c2e1765651c95528c11aa4519a187f6811ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 34/86] fix: apply_alignment converts track offsets and slopes
 once in case of more than 10 DUTs

---
 beam_telescope_analysis/dut_alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 62085c2..5cd84ce 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -103,7 +103,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
 
         if "Tracks" in node.name:
             format_strings = ['offset_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("_DUT%d" % dut_index):
                 format_strings.extend(['offset_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
@@ -119,7 +119,7 @@ def apply_alignment(telescope_configuration, input_file, output_file=None, local
                         rotation_gamma=dut.rotation_gamma)
 
             format_strings = ['slope_{dimension}_dut_{dut_index}']
-            if "DUT%d" % dut_index in node.name:
+            if node.name.endswith("_DUT%d" % dut_index):
                 format_strings.extend(['slope_{dimension}'])
             for format_string in format_strings:
                 if format_string.format(dimension='x', dut_index=dut_index) in node.dtype.names:
-- 
2.43.0


From c4d4141c28946ce4b90660165b0f4549cfd5b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 35/86] fix: alignment of all DUTs (default) and of DUT lists
 with different length

---
 beam_telescope_analysis/dut_alignment.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 5cd84ce..683bf8b 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -644,7 +644,6 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
 
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
@@ -665,8 +664,10 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
         if not dut:  # check the length of the items
             raise ValueError("Item in parameter select_duts has length 0.")
 
+    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(select_duts)).tolist())))
+
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(select_duts)).tolist())
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
@@ -1011,7 +1012,6 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     '''
     telescope = Telescope(telescope_configuration)
     n_duts = len(telescope)
-    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(np.array(select_duts))).tolist())))
 
     # Create list with combinations of DUTs to align
     if select_duts is None:  # If None: align all DUTs
@@ -1032,8 +1032,10 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
         if not dut:  # check the length of the items
             raise ValueError("Item in parameter select_duts has length 0.")
 
+    logging.info('=== Alignment of %d DUTs ===' % len(set(np.unique(np.hstack(select_duts)).tolist())))
+
     # Check if some DUTs will not be aligned
-    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(np.array(select_duts))).tolist())
+    non_select_duts = set(range(n_duts)) - set(np.unique(np.hstack(select_duts)).tolist())
     if non_select_duts:
         logging.info('These DUTs will not be aligned: %s' % ", ".join(telescope[dut_index].name for dut_index in non_select_duts))
 
-- 
2.43.0


From 492d1795391b238829409290ccb0794e15991aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 36/86] fix: use the average rotation of all chunks for the
 alignment

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 683bf8b..dd7a69d 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1973,7 +1973,7 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
             # average rotation matrices from different chunks
             u_rot, _, v_rot = np.linalg.svd(rotation_average, full_matrices=False)
             rotation_average = np.dot(u_rot, v_rot)  # orthogonal matrix U
-            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation)
+            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation_average)
 
             actual_dut.translation_x = translation_average[0]
             actual_dut.translation_y = translation_average[1]
-- 
2.43.0


From 503f6efbc86840acf65723f32e04651bca91d419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 37/86] fix: alignment without quality distances

---
 beam_telescope_analysis/dut_alignment.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index dd7a69d..cba0c68 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1199,15 +1199,6 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
         # reqire hits in each DUT that will be aligned
         actual_hit_duts = [list(set(select_hit_duts) | set([dut_index])) for dut_index in actual_align_duts]
         actual_quality_duts = actual_hit_duts
-        fit_quality_distances = np.zeros_like(quality_distances)
-        for index, item in enumerate(quality_distances):
-            if index in align_duts:
-                fit_quality_distances[index, 0] = np.linspace(item[0] * 1.08447**max_iterations, item[0], max_iterations)[iteration_step]
-                fit_quality_distances[index, 1] = np.linspace(item[1] * 1.08447**max_iterations, item[1], max_iterations)[iteration_step]
-            else:
-                fit_quality_distances[index, 0] = item[0]
-                fit_quality_distances[index, 1] = item[1]
-        fit_quality_distances = fit_quality_distances.tolist()
         if iteration_step > 0:
             logging.info('= Alignment step 1 - iteration %d: Finding tracks for %d DUTs =', iteration_step, len(align_duts))
             # remove temporary file
-- 
2.43.0


From 0152d20d92191a1ca57157921213988376f6f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 38/86] fix: prealign with the reference DUT displaced from the
 origin

---
 beam_telescope_analysis/dut_alignment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index cba0c68..dd884c2 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -263,7 +263,6 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                 logging.info('Pre-aligning data from %s', node.name)
                 bin_size = node.attrs.resolution
                 ref_hist_extent = node.attrs.ref_hist_extent
-                ref_hist_size = (ref_hist_extent[1] - ref_hist_extent[0])
                 dut_hist_extent = node.attrs.dut_hist_extent
                 dut_hist_size = (dut_hist_extent[1] - dut_hist_extent[0])
 
@@ -313,7 +312,7 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
                 # find loactions where the max. correlation is close to expected value
                 x_list = find_inliers(
                     x=dut_pos[max_select != 0],
-                    y=(max_select[max_select != 0] * bin_size - ref_hist_size / 2.0 + bin_size / 2.0),
+                    y=(max_select[max_select != 0] * bin_size + ref_hist_extent[0] + bin_size / 2.0),
                     m=slope,
                     c=offset_plot,
                     threshold=pixel_size * np.sqrt(12) * 2)
-- 
2.43.0


From 282ae069f5317ae1fe5c37d484292c4abc169258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:55 +0000
Subject: [PATCH 39/86] fix: calculate_residuals with chunks without selected
 tracks

---
 beam_telescope_analysis/result_analysis.py | 60 ++++++++++++++--------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index faf38fb..b1ba5f1 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -23,6 +23,22 @@ from beam_telescope_analysis.tools import analysis_utils
 from beam_telescope_analysis.tools.storage_utils import save_arguments
 
 
+def _binned_statistic(x, values, statistic, bins):
+    ''' Same as stats.binned_statistic, but also working with empty arrays (e.g. chunk without any selected track).
+    '''
+    if len(x) == 0:
+        return np.full(len(bins) - 1, fill_value=(np.nan if statistic == 'mean' else 0.0)), bins, np.zeros(0, dtype=np.intp)
+    return stats.binned_statistic(x=x, values=values, statistic=statistic, bins=bins)
+
+
+def _binned_statistic_2d(x, y, values, statistic, bins):
+    ''' Same as stats.binned_statistic_2d, but also working with empty arrays (e.g. chunk without any selected track).
+    '''
+    if len(x) == 0:
+        return np.full((len(bins[0]) - 1, len(bins[1]) - 1), fill_value=(np.nan if statistic == 'mean' else 0.0)), bins[0], bins[1], np.zeros(0, dtype=np.intp)
+    return stats.binned_statistic_2d(x=x, y=y, values=values, statistic=statistic, bins=bins)
+
+
 @save_arguments
 def calculate_residuals(telescope_configuration, input_tracks_file, select_duts, output_residuals_file=None, nbins_per_pixel=None, npixels_per_bin=None, use_limits=True, plot=True, chunk_size=1000000):
     '''Takes the tracks and calculates residuals for selected DUTs in col, row direction.
@@ -221,44 +237,44 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 0],
                             bins=(x_pos_hist_edges, local_x_residuals_hist_edges))
-                        stat_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_x_residuals_x_pos_hist, _, _ = _binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
                         stat_local_x_residuals_x_pos_hist = np.nan_to_num(stat_local_x_residuals_x_pos_hist)
-                        count_local_x_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
+                        count_local_x_residuals_x_pos_hist, _, _ = _binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
 
                         # local Y residual against Y position
                         local_y_residuals_y_pos_hist, _, _ = np.histogram2d(
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 1],
                             bins=(y_pos_hist_edges, local_y_residuals_hist_edges))
-                        stat_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_y_residuals_y_pos_hist, _, _ = _binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
                         stat_local_y_residuals_y_pos_hist = np.nan_to_num(stat_local_y_residuals_y_pos_hist)
-                        count_local_y_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
+                        count_local_y_residuals_y_pos_hist, _, _ = _binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
 
                         # local Y residual against X position
                         local_y_residuals_x_pos_hist, _, _ = np.histogram2d(
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 1],
                             bins=(x_pos_hist_edges, local_y_residuals_hist_edges))
-                        stat_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_y_residuals_x_pos_hist, _, _ = _binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
                         stat_local_y_residuals_x_pos_hist = np.nan_to_num(stat_local_y_residuals_x_pos_hist)
-                        count_local_y_residuals_x_pos_hist, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
+                        count_local_y_residuals_x_pos_hist, _, _ = _binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
 
                         # local X residual against Y position
                         local_x_residuals_y_pos_hist, _, _ = np.histogram2d(
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 0],
                             bins=(y_pos_hist_edges, local_x_residuals_hist_edges))
-                        stat_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_x_residuals_y_pos_hist, _, _ = _binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
                         stat_local_x_residuals_y_pos_hist = np.nan_to_num(stat_local_x_residuals_y_pos_hist)
-                        count_local_x_residuals_y_pos_hist, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
+                        count_local_x_residuals_y_pos_hist, _, _ = _binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
 
                         # 2D residuals
-                        stat_2d_residuals_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges)
+                        stat_2d_residuals_hist, _, _, _ = _binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges)
                         stat_2d_residuals_hist = np.nan_to_num(stat_2d_residuals_hist)
-                        count_2d_residuals_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='count', bins=hist_2d_edges)
+                        count_2d_residuals_hist, _, _, _ = _binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='count', bins=hist_2d_edges)
 
                         # 2D hits
-                        count_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
+                        count_2d_hist, _, _, _ = _binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
 
                     else:  # adding data to existing histograms
                         local_x_residuals_hist += np.histogram(difference_local_limit_xy[:, 0], bins=local_x_residuals_hist_edges)[0]
@@ -269,9 +285,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 0],
                             bins=(x_pos_hist_edges, local_x_residuals_hist_edges))[0]
-                        stat_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_x_residuals_x_pos_hist_tmp, _, _ = _binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='mean', bins=x_pos_hist_edges)
                         stat_local_x_residuals_x_pos_hist_tmp = np.nan_to_num(stat_local_x_residuals_x_pos_hist_tmp)
-                        count_local_x_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
+                        count_local_x_residuals_x_pos_hist_tmp, _, _ = _binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 0], statistic='count', bins=x_pos_hist_edges)
                         stat_local_x_residuals_x_pos_hist, count_local_x_residuals_x_pos_hist = np.ma.average(a=np.stack([stat_local_x_residuals_x_pos_hist, stat_local_x_residuals_x_pos_hist_tmp]), axis=0, weights=np.stack([count_local_x_residuals_x_pos_hist, count_local_x_residuals_x_pos_hist_tmp]), returned=True)
 
                         # local Y residual against Y position
@@ -279,9 +295,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 1],
                             bins=(y_pos_hist_edges, local_y_residuals_hist_edges))[0]
-                        stat_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_y_residuals_y_pos_hist_tmp, _, _ = _binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='mean', bins=y_pos_hist_edges)
                         stat_local_y_residuals_y_pos_hist_tmp = np.nan_to_num(stat_local_y_residuals_y_pos_hist_tmp)
-                        count_local_y_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
+                        count_local_y_residuals_y_pos_hist_tmp, _, _ = _binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 1], statistic='count', bins=y_pos_hist_edges)
                         stat_local_y_residuals_y_pos_hist, count_local_y_residuals_y_pos_hist = np.ma.average(a=np.stack([stat_local_y_residuals_y_pos_hist, stat_local_y_residuals_y_pos_hist_tmp]), axis=0, weights=np.stack([count_local_y_residuals_y_pos_hist, count_local_y_residuals_y_pos_hist_tmp]), returned=True)
 
                         # local Y residual against X position
@@ -289,9 +305,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_x_local_limit_y,
                             difference_local_limit_y[:, 1],
                             bins=(x_pos_hist_edges, local_y_residuals_hist_edges))[0]
-                        stat_local_y_residuals_x_pos_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
+                        stat_local_y_residuals_x_pos_tmp, _, _ = _binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='mean', bins=x_pos_hist_edges)
                         stat_local_y_residuals_x_pos_tmp = np.nan_to_num(stat_local_y_residuals_x_pos_tmp)
-                        count_local_y_residuals_x_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
+                        count_local_y_residuals_x_pos_hist_tmp, _, _ = _binned_statistic(x=intersection_x_local_limit_y, values=difference_local_limit_y[:, 1], statistic='count', bins=x_pos_hist_edges)
                         stat_local_y_residuals_x_pos_hist, count_local_y_residuals_x_pos_hist = np.ma.average(a=np.stack([stat_local_y_residuals_x_pos_hist, stat_local_y_residuals_x_pos_tmp]), axis=0, weights=np.stack([count_local_y_residuals_x_pos_hist, count_local_y_residuals_x_pos_hist_tmp]), returned=True)
 
                         # local X residual against Y position
@@ -299,19 +315,19 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                             intersection_y_local_limit_x,
                             difference_local_limit_x[:, 0],
                             bins=(y_pos_hist_edges, local_x_residuals_hist_edges))[0]
-                        stat_local_x_residuals_y_pos_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
+                        stat_local_x_residuals_y_pos_tmp, _, _ = _binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='mean', bins=y_pos_hist_edges)
                         stat_local_x_residuals_y_pos_tmp = np.nan_to_num(stat_local_x_residuals_y_pos_tmp)
-                        count_local_x_residuals_y_pos_hist_tmp, _, _ = stats.binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
+                        count_local_x_residuals_y_pos_hist_tmp, _, _ = _binned_statistic(x=intersection_y_local_limit_x, values=difference_local_limit_x[:, 0], statistic='count', bins=y_pos_hist_edges)
                         stat_local_x_residuals_y_pos_hist, count_local_x_residuals_y_pos_hist = np.ma.average(a=np.stack([stat_local_x_residuals_y_pos_hist, stat_local_x_residuals_y_pos_tmp]), axis=0, weights=np.stack([count_local_x_residuals_y_pos_hist, count_local_x_residuals_y_pos_hist_tmp]), returned=True)
 
                         # 2D residuals
-                        stat_2d_residuals_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges)
+                        stat_2d_residuals_hist_tmp, _, _, _ = _binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='mean', bins=hist_2d_edges)
                         stat_2d_residuals_hist_tmp = np.nan_to_num(stat_2d_residuals_hist_tmp)
-                        count_2d_residuals_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='count', bins=hist_2d_edges)
+                        count_2d_residuals_hist_tmp, _, _, _ = _binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=distance_local, statistic='count', bins=hist_2d_edges)
                         stat_2d_residuals_hist, count_2d_residuals_hist = np.ma.average(a=np.stack([stat_2d_residuals_hist, stat_2d_residuals_hist_tmp]), axis=0, weights=np.stack([count_2d_residuals_hist, count_2d_residuals_hist_tmp]), returned=True)
 
                         # 2D hits
-                        count_2d_hist += stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
+                        count_2d_hist += _binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
 
                 if initialize is True:
                     raise RuntimeError("No tracks were processed.")
-- 
2.43.0


From 3bb98e80daf5b6c1657ca0f5e2b1df996509572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:13 +0000
Subject: [PATCH 40/86] fix: number of bins per pixel of the residual
 histograms

---
 beam_telescope_analysis/result_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index b1ba5f1..7a71ff0 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -182,9 +182,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                         # calculate the binning of the histograms, the minimum size is given by plot_n_pixels, otherwise FWHM is taken into account
                         if nbins_per_pixel is not None:
                             width = max(plot_n_pixels * actual_dut.column_size, actual_dut.column_size * np.ceil(plot_n_pixels * fwhm_x_local / actual_dut.column_size))
-                            if np.mod(width / actual_dut.column_size, 2) != 0:
+                            if np.mod(np.round(width / actual_dut.column_size), 2) != 0:
                                 width += actual_dut.column_size
-                            nbins = int(nbins_per_pixel * width / actual_dut.column_size)
+                            nbins = int(round(nbins_per_pixel * width / actual_dut.column_size))
                             local_x_range = (center_x_local - 0.5 * width, center_x_local + 0.5 * width)
                         else:
                             # if fwhm_x_local < 0.01:
@@ -205,9 +205,9 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
 
                         if nbins_per_pixel is not None:
                             width = max(plot_n_pixels * actual_dut.row_size, actual_dut.row_size * np.ceil(plot_n_pixels * fwhm_y_local / actual_dut.row_size))
-                            if np.mod(width / actual_dut.row_size, 2) != 0:
+                            if np.mod(np.round(width / actual_dut.row_size), 2) != 0:
                                 width += actual_dut.row_size
-                            nbins = int(nbins_per_pixel * width / actual_dut.row_size)
+                            nbins = int(round(nbins_per_pixel * width / actual_dut.row_size))
                             local_y_range = (center_y_local - 0.5 * width, center_y_local + 0.5 * width)
                         else:
                             # if fwhm_y_local < 0.01:
-- 
2.43.0


From 514e3e22f07cef345a2b8af36be3e8f449b5a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:05 +0000
Subject: [PATCH 41/86] fix: restore line endings of geometry_utils.py

---
 .../tools/geometry_utils.py                   | 1042 ++++++++---------
 1 file changed, 521 insertions(+), 521 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index c81e57d..698e2ce 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -1,521 +1,521 @@
-''' Helper functions for geometrical operations.
-'''
-from __future__ import division
-
-import logging
-
-import numpy as np
-
-
-def skew(v):
-    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
-    matr[::9] = v.flatten()[::3]
-    matr[4::9] = v.flatten()[1::3]
-    matr[8::9] = v.flatten()[2::3]
-    matr = matr.reshape(np.r_[v.shape, 3])
-
-    if len(v.shape) == 1:
-        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
-        return matr_skv - matr_skv.T
-    else:
-        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
-        return matr_skv - matr_skv.transpose((0, 2, 1))
-
-
-def get_plane_normal(direction_vector_1, direction_vector_2):
-    ''' Normal vector of a plane.
-
-    Plane is define by two non parallel direction vectors within the plane.
-
-    Parameters
-    ----------
-    direction_vector_1 : array
-        Array with x, y and z.
-    direction_vector_2 : array
-        Array with x, y and z.
-
-    Returns
-    -------
-    Array with x, y and z.
-    '''
-    return np.cross(direction_vector_1, direction_vector_2)
-
-
-def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
-    ''' Calculates the intersection of lines with a DUT.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    translation_x, translation_y, translation_z : float
-        The coordianates of the DUT (in um).
-    rotation_alpha, rotation_beta, rotation_gamma : float
-        The rotation angles of the DUT (in radians).
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    dut_position = np.array([
-        translation_x,
-        translation_y,
-        translation_z],
-        dtype=np.float64)
-    dut_rotation_matrix = rotation_matrix(
-        alpha=rotation_alpha,
-        beta=rotation_beta,
-        gamma=rotation_gamma)
-    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
-    dut_normal = basis_global[2]
-    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
-    if dut_normal[2] < 0:
-        dut_normal = -dut_normal
-    return get_line_intersections_with_plane(
-        line_origins=line_origins,
-        line_directions=line_directions,
-        position_plane=dut_position,
-        normal_plane=dut_normal)
-
-
-def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
-    ''' Calculates the intersection of n lines with one plane.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    position_plane : array
-        A array (x, y and z) to the plane.
-    normal_plane : array
-        The normal vector (x, y and z) of the plane.
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    # Calculate offsets and extend in missing dimension
-    offsets = position_plane[np.newaxis, :] - line_origins
-
-    # Precalculate to be able to avoid division by 0
-    # (line is parallel to the plane or in the plane)
-    norm_dot_off = np.dot(normal_plane, offsets.T)
-    # Dot product is transformed to be at least 1D for special n = 1
-    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
-                                        line_directions.T))
-
-    # Initialize result to nan
-    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
-
-    # Warn if some intersection cannot be calculated
-    if np.any(norm_dot_dir == 0):
-        logging.warning('Some line plane intersection could not be calculated')
-
-    # Calculate t scalar for each line simultaniously, avoid division by 0
-    sel = norm_dot_dir != 0
-    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
-
-    # Calculate the intersections for each line with the plane
-    intersections = line_origins + line_directions * t[:, np.newaxis]
-
-    return intersections
-
-
-def cartesian_to_spherical(x, y, z):
-    ''' Does a transformation from cartesian to spherical coordinates.
-
-    Convention: r = 0 --> phi = theta = 0
-
-    Parameters
-    ----------
-    x, y, z : float
-        Position in cartesian space.
-
-    Returns
-    -------
-    Spherical coordinates phi, theta and r.
-    '''
-    r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = y = 0
-    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
-    # Avoid division by zero
-    # https://en.wikipedia.org/wiki/Atan2
-    sel = np.logical_or(x != 0, y != 0)
-    phi[sel] = np.arctan2(y[sel], x[sel])
-    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
-    phi[phi >= 2. * np.pi] = 0.0  # rounding of very small negative phi
-    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
-    return phi, theta, r
-
-
-def spherical_to_cartesian(phi, theta, r):
-    ''' Transformation from spherical to cartesian coordinates.
-
-    Including error checks.
-
-    Parameters
-    ----------
-    phi, theta, r : float
-        Position in spherical space.
-
-    Returns
-    -------
-    Cartesian coordinates x, y and z.
-    '''
-    if np.any(r < 0):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
-    if np.any(theta < 0) or np.any(theta >= np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
-    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
-    x = r * np.cos(phi) * np.sin(theta)
-    y = r * np.sin(phi) * np.sin(theta)
-    z = r * np.cos(theta)
-
-    return x, y, z
-
-
-def rotation_matrix_x(alpha):
-    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[1, 0, 0],
-                     [0, np.cos(alpha), -np.sin(alpha)],
-                     [0, np.sin(alpha), np.cos(alpha)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_y(beta):
-    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    beta : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(beta), 0, np.sin(beta)],
-                     [0, 1, 0],
-                     [-np.sin(beta), 0, np.cos(beta)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_z(gamma):
-    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    gamma : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
-                     [np.sin(gamma), np.cos(gamma), 0],
-                     [0, 0, 1]],
-                    dtype=np.float64)
-
-
-def rotation_matrix(alpha, beta, gamma):
-    ''' Calculates the rotation matrix for the rotation around the three cartesian
-    axis x, y, z in a right-handed coordinate system.
-
-    Note
-    ----
-    The matrix represents a rotation around the x axis, then the y axis,
-    and then the z axis in a right-handed coordinate system.
-
-    Remember:
-        - Transform to the locale coordinate system before applying rotations
-        - Rotations are associative but not commutative
-
-    Usage
-    -----
-        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
-        coordinate system can be done by:
-            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
-
-
-def euler_angles(R):
-    ''' Calculates the Euler angles from rotation matrix R.
-
-    Note
-    ----
-    In a right-handed system. The rotation is done around x then y then z.
-
-    Note:
-        - Transform to the local coordinate system before applying rotations
-        - Rotations are associative but not commutative
-        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
-          In this case, gamma is set to zero.
-
-    Parameters
-    ----------
-    R : array
-        Rotation matrix.
-
-    Returns
-    -------
-    Returns Euler angles alpha, beta and gamma.
-    '''
-    def is_rotation_matrix(R):
-        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
-        return np.isclose(0.0, norm)
-
-    if not is_rotation_matrix(R):
-        raise ValueError("%s is not a rotation matrix" % str(R))
-
-    # allow for rounding errors, close to gimbal lock alpha and gamma are not defined
-    gimbal_limit = 1.0 - 1e-15
-    if R[2, 0] <= -gimbal_limit:
-        gamma_1 = 0.0  # gimbal lock
-        alpha_1 = gamma_1 + np.arctan2(R[0, 1], R[0, 2])
-        beta_1 = np.pi / 2
-    elif R[2, 0] >= gimbal_limit:
-        gamma_1 = 0.0  # gimbal lock
-        alpha_1 = -gamma_1 + np.arctan2(-R[0, 1], -R[0, 2])
-        beta_1 = -np.pi / 2
-    else:
-        beta_1 = -np.arcsin(R[2, 0])
-        # for very small values use 0.0 and remove minus sign from 0.0
-        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
-            beta_1 = 0.0
-        beta_2 = np.pi - beta_1
-        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
-        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
-            alpha_1 = 0.0
-        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
-        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
-            alpha_2 = 0.0
-        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
-        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
-            gamma_1 = 0.0
-        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
-        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
-            gamma_2 = 0.0
-        # # chose the angles with smaller values
-        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
-        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
-        # else:
-        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
-    return alpha_1, beta_1, gamma_1
-
-
-def translation_matrix(x, y, z):
-    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
-
-    Note
-    ----
-    Remember: Translations are associative and commutative
-
-    Usage
-    -----
-        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
-          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
-    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
-
-    return translation_matrix.T
-
-
-def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a translation and rotation.
-
-    Translation is T=(-x, -y, -z) to the local coordinate system followed
-    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
-
-    Note
-    ----
-        - This function is the inverse of
-          local_to_global_transformation_matrix()
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations are not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
-
-    # Get translation matrix T
-    T = translation_matrix(x=-x, y=-y, z=-z)
-
-    return np.dot(R, T)
-
-
-def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a inverse translation and rotation.
-
-    Inverse rotation in the local coordinate system followed by an inverse
-    translation by x, y, z to the global coordinate system.
-
-    Note
-    ----
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations do not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend inverse rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
-
-    # Get inverse translation matrix T
-    T = translation_matrix(x=x, y=y, z=z)
-
-    return np.dot(T, R)
-
-
-def apply_transformation_matrix(x, y, z, transformation_matrix):
-    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of y coordinates.
-    z : array
-        Array of z coordinates.
-
-    Returns
-    -------
-    Array with transformed coordinates.
-    '''
-    # Add extra 4th dimension
-    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
-
-    # Transform and delete extra dimension
-    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-
-
-def apply_rotation_matrix(x, y, z, rotation_matrix):
-    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of x coordinates.
-    z : array
-        Array of x coordinates.
-
-    Returns
-    -------
-    Array with rotated coordinates.
-    '''
-    pos = np.column_stack((x, y, z)).T
-    pos_transformed = np.dot(rotation_matrix, pos).T
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+''' Helper functions for geometrical operations.
+'''
+from __future__ import division
+
+import logging
+
+import numpy as np
+
+
+def skew(v):
+    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
+    matr[::9] = v.flatten()[::3]
+    matr[4::9] = v.flatten()[1::3]
+    matr[8::9] = v.flatten()[2::3]
+    matr = matr.reshape(np.r_[v.shape, 3])
+
+    if len(v.shape) == 1:
+        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
+        return matr_skv - matr_skv.T
+    else:
+        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
+        return matr_skv - matr_skv.transpose((0, 2, 1))
+
+
+def get_plane_normal(direction_vector_1, direction_vector_2):
+    ''' Normal vector of a plane.
+
+    Plane is define by two non parallel direction vectors within the plane.
+
+    Parameters
+    ----------
+    direction_vector_1 : array
+        Array with x, y and z.
+    direction_vector_2 : array
+        Array with x, y and z.
+
+    Returns
+    -------
+    Array with x, y and z.
+    '''
+    return np.cross(direction_vector_1, direction_vector_2)
+
+
+def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
+    ''' Calculates the intersection of lines with a DUT.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    translation_x, translation_y, translation_z : float
+        The coordianates of the DUT (in um).
+    rotation_alpha, rotation_beta, rotation_gamma : float
+        The rotation angles of the DUT (in radians).
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    dut_position = np.array([
+        translation_x,
+        translation_y,
+        translation_z],
+        dtype=np.float64)
+    dut_rotation_matrix = rotation_matrix(
+        alpha=rotation_alpha,
+        beta=rotation_beta,
+        gamma=rotation_gamma)
+    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
+    dut_normal = basis_global[2]
+    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
+    if dut_normal[2] < 0:
+        dut_normal = -dut_normal
+    return get_line_intersections_with_plane(
+        line_origins=line_origins,
+        line_directions=line_directions,
+        position_plane=dut_position,
+        normal_plane=dut_normal)
+
+
+def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
+    ''' Calculates the intersection of n lines with one plane.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    position_plane : array
+        A array (x, y and z) to the plane.
+    normal_plane : array
+        The normal vector (x, y and z) of the plane.
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    # Calculate offsets and extend in missing dimension
+    offsets = position_plane[np.newaxis, :] - line_origins
+
+    # Precalculate to be able to avoid division by 0
+    # (line is parallel to the plane or in the plane)
+    norm_dot_off = np.dot(normal_plane, offsets.T)
+    # Dot product is transformed to be at least 1D for special n = 1
+    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
+                                        line_directions.T))
+
+    # Initialize result to nan
+    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
+
+    # Warn if some intersection cannot be calculated
+    if np.any(norm_dot_dir == 0):
+        logging.warning('Some line plane intersection could not be calculated')
+
+    # Calculate t scalar for each line simultaniously, avoid division by 0
+    sel = norm_dot_dir != 0
+    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
+
+    # Calculate the intersections for each line with the plane
+    intersections = line_origins + line_directions * t[:, np.newaxis]
+
+    return intersections
+
+
+def cartesian_to_spherical(x, y, z):
+    ''' Does a transformation from cartesian to spherical coordinates.
+
+    Convention: r = 0 --> phi = theta = 0
+
+    Parameters
+    ----------
+    x, y, z : float
+        Position in cartesian space.
+
+    Returns
+    -------
+    Spherical coordinates phi, theta and r.
+    '''
+    r = np.sqrt(x * x + y * y + z * z)
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = y = 0
+    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
+    # Avoid division by zero
+    # https://en.wikipedia.org/wiki/Atan2
+    sel = np.logical_or(x != 0, y != 0)
+    phi[sel] = np.arctan2(y[sel], x[sel])
+    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    phi[phi >= 2. * np.pi] = 0.0  # rounding of very small negative phi
+    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
+    return phi, theta, r
+
+
+def spherical_to_cartesian(phi, theta, r):
+    ''' Transformation from spherical to cartesian coordinates.
+
+    Including error checks.
+
+    Parameters
+    ----------
+    phi, theta, r : float
+        Position in spherical space.
+
+    Returns
+    -------
+    Cartesian coordinates x, y and z.
+    '''
+    if np.any(r < 0):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
+    if np.any(theta < 0) or np.any(theta >= np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
+    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
+    x = r * np.cos(phi) * np.sin(theta)
+    y = r * np.sin(phi) * np.sin(theta)
+    z = r * np.cos(theta)
+
+    return x, y, z
+
+
+def rotation_matrix_x(alpha):
+    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[1, 0, 0],
+                     [0, np.cos(alpha), -np.sin(alpha)],
+                     [0, np.sin(alpha), np.cos(alpha)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_y(beta):
+    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    beta : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(beta), 0, np.sin(beta)],
+                     [0, 1, 0],
+                     [-np.sin(beta), 0, np.cos(beta)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_z(gamma):
+    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    gamma : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
+                     [np.sin(gamma), np.cos(gamma), 0],
+                     [0, 0, 1]],
+                    dtype=np.float64)
+
+
+def rotation_matrix(alpha, beta, gamma):
+    ''' Calculates the rotation matrix for the rotation around the three cartesian
+    axis x, y, z in a right-handed coordinate system.
+
+    Note
+    ----
+    The matrix represents a rotation around the x axis, then the y axis,
+    and then the z axis in a right-handed coordinate system.
+
+    Remember:
+        - Transform to the locale coordinate system before applying rotations
+        - Rotations are associative but not commutative
+
+    Usage
+    -----
+        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
+        coordinate system can be done by:
+            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
+
+
+def euler_angles(R):
+    ''' Calculates the Euler angles from rotation matrix R.
+
+    Note
+    ----
+    In a right-handed system. The rotation is done around x then y then z.
+
+    Note:
+        - Transform to the local coordinate system before applying rotations
+        - Rotations are associative but not commutative
+        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
+          In this case, gamma is set to zero.
+
+    Parameters
+    ----------
+    R : array
+        Rotation matrix.
+
+    Returns
+    -------
+    Returns Euler angles alpha, beta and gamma.
+    '''
+    def is_rotation_matrix(R):
+        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
+        return np.isclose(0.0, norm)
+
+    if not is_rotation_matrix(R):
+        raise ValueError("%s is not a rotation matrix" % str(R))
+
+    # allow for rounding errors, close to gimbal lock alpha and gamma are not defined
+    gimbal_limit = 1.0 - 1e-15
+    if R[2, 0] <= -gimbal_limit:
+        gamma_1 = 0.0  # gimbal lock
+        alpha_1 = gamma_1 + np.arctan2(R[0, 1], R[0, 2])
+        beta_1 = np.pi / 2
+    elif R[2, 0] >= gimbal_limit:
+        gamma_1 = 0.0  # gimbal lock
+        alpha_1 = -gamma_1 + np.arctan2(-R[0, 1], -R[0, 2])
+        beta_1 = -np.pi / 2
+    else:
+        beta_1 = -np.arcsin(R[2, 0])
+        # for very small values use 0.0 and remove minus sign from 0.0
+        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
+            beta_1 = 0.0
+        beta_2 = np.pi - beta_1
+        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
+        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
+            alpha_1 = 0.0
+        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
+        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
+            alpha_2 = 0.0
+        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
+        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
+            gamma_1 = 0.0
+        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
+        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
+            gamma_2 = 0.0
+        # # chose the angles with smaller values
+        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
+        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
+        # else:
+        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
+    return alpha_1, beta_1, gamma_1
+
+
+def translation_matrix(x, y, z):
+    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
+
+    Note
+    ----
+    Remember: Translations are associative and commutative
+
+    Usage
+    -----
+        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
+          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
+    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
+
+    return translation_matrix.T
+
+
+def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a translation and rotation.
+
+    Translation is T=(-x, -y, -z) to the local coordinate system followed
+    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
+
+    Note
+    ----
+        - This function is the inverse of
+          local_to_global_transformation_matrix()
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations are not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
+
+    # Get translation matrix T
+    T = translation_matrix(x=-x, y=-y, z=-z)
+
+    return np.dot(R, T)
+
+
+def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a inverse translation and rotation.
+
+    Inverse rotation in the local coordinate system followed by an inverse
+    translation by x, y, z to the global coordinate system.
+
+    Note
+    ----
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations do not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend inverse rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
+
+    # Get inverse translation matrix T
+    T = translation_matrix(x=x, y=y, z=z)
+
+    return np.dot(T, R)
+
+
+def apply_transformation_matrix(x, y, z, transformation_matrix):
+    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of y coordinates.
+    z : array
+        Array of z coordinates.
+
+    Returns
+    -------
+    Array with transformed coordinates.
+    '''
+    # Add extra 4th dimension
+    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
+
+    # Transform and delete extra dimension
+    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+
+
+def apply_rotation_matrix(x, y, z, rotation_matrix):
+    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of x coordinates.
+    z : array
+        Array of x coordinates.
+
+    Returns
+    -------
+    Array with rotated coordinates.
+    '''
+    pos = np.column_stack((x, y, z)).T
+    pos_transformed = np.dot(rotation_matrix, pos).T
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-- 
2.43.0


From 7cc969b796aa9cd472b27c01af3f59d129f7af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 42/86] fix: number of bins of the efficiency histograms

---
 beam_telescope_analysis/result_analysis.py | 36 ++++++++++++----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 7a71ff0..142a0c3 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -39,6 +39,14 @@ def _binned_statistic_2d(x, y, values, statistic, bins):
     return stats.binned_statistic_2d(x=x, y=y, values=values, statistic=statistic, bins=bins)
 
 
+def _hist_size(size, resolution):
+    ''' Number of bins and size of a histogram with given bin size that covers the given size.
+    '''
+    # size and resolution are floats, do not add a bin because of rounding errors
+    n_bins = int(math.ceil(round(size / resolution, 6)))
+    return n_bins, n_bins * resolution
+
+
 @save_arguments
 def calculate_residuals(telescope_configuration, input_tracks_file, select_duts, output_residuals_file=None, nbins_per_pixel=None, npixels_per_bin=None, use_limits=True, plot=True, chunk_size=1000000):
     '''Takes the tracks and calculates residuals for selected DUTs in col, row direction.
@@ -855,20 +863,20 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                 # DUT hist size
                 dut_x_center = 0.0
-                dut_hist_x_size = math.ceil(dut_x_size / resolution[0]) * resolution[0]
+                hist_2d_x_n_bins, dut_hist_x_size = _hist_size(dut_x_size, resolution[0])
                 if extend_area is not None and extend_area[0] is not None:
-                    dut_hist_x_extent_area = math.ceil(extend_area[0] / resolution[0]) * resolution[0] * 2.0
-                    dut_hist_x_size += dut_hist_x_extent_area
+                    n_bins_extend_area, dut_hist_x_extent_area = _hist_size(extend_area[0], resolution[0])
+                    hist_2d_x_n_bins += 2 * n_bins_extend_area
+                    dut_hist_x_size += 2.0 * dut_hist_x_extent_area
                 dut_hist_x_extent = [dut_x_center - dut_hist_x_size / 2.0, dut_x_center + dut_hist_x_size / 2.0]
                 dut_y_center = 0.0
-                dut_hist_y_size = math.ceil(dut_y_size / resolution[1]) * resolution[1]
+                hist_2d_y_n_bins, dut_hist_y_size = _hist_size(dut_y_size, resolution[1])
                 if extend_area is not None and extend_area[1] is not None:
-                    dut_hist_y_extent_area = math.ceil(extend_area[1] / resolution[1]) * resolution[1] * 2.0
-                    dut_hist_y_size += dut_hist_y_extent_area
+                    n_bins_extend_area, dut_hist_y_extent_area = _hist_size(extend_area[1], resolution[1])
+                    hist_2d_y_n_bins += 2 * n_bins_extend_area
+                    dut_hist_y_size += 2.0 * dut_hist_y_extent_area
                 dut_hist_y_extent = [dut_y_center - dut_hist_y_size / 2.0, dut_y_center + dut_hist_y_size / 2.0]
                 hist_extent = [dut_hist_x_extent[0], dut_hist_x_extent[1], dut_hist_y_extent[0], dut_hist_y_extent[1]]
-                hist_2d_x_n_bins = int(dut_hist_x_size / resolution[0])
-                hist_2d_y_n_bins = int(dut_hist_y_size / resolution[1])
                 hist_2d_x_edges = np.linspace(dut_hist_x_extent[0], dut_hist_x_extent[1], hist_2d_x_n_bins + 1, endpoint=True)
                 hist_2d_y_edges = np.linspace(dut_hist_y_extent[0], dut_hist_y_extent[1], hist_2d_y_n_bins + 1, endpoint=True)
                 hist_2d_edges = [hist_2d_x_edges, hist_2d_y_edges]
@@ -926,10 +934,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                     # for in-pixel statistics
                     # generate primitive cell of the size of a single pixel
-                    dut_in_pixel_hist_x_size = math.ceil(actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
-                    dut_in_pixel_hist_y_size = math.ceil(actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
-                    hist_in_pixel_x_n_bins = int(dut_in_pixel_hist_x_size / in_pixel_resolution[0])
-                    hist_in_pixel_y_n_bins = int(dut_in_pixel_hist_y_size / in_pixel_resolution[1])
+                    hist_in_pixel_x_n_bins, dut_in_pixel_hist_x_size = _hist_size(actual_dut.column_size, in_pixel_resolution[0])
+                    hist_in_pixel_y_n_bins, dut_in_pixel_hist_y_size = _hist_size(actual_dut.row_size, in_pixel_resolution[1])
                     hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
                     hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                     hist_in_pixel_2d_edges = [hist_in_pixel_x_edges, hist_in_pixel_y_edges]
@@ -1105,13 +1111,11 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         resize_in_pixel_hist = False
                         if np.any(in_pixel_intersection_x_local > dut_in_pixel_hist_x_size):
                             resize_in_pixel_hist = True
-                            dut_in_pixel_hist_x_size = math.ceil(np.ceil(np.max(in_pixel_intersection_x_local) / actual_dut.column_size) * actual_dut.column_size / in_pixel_resolution[0]) * in_pixel_resolution[0]
-                            hist_in_pixel_x_n_bins = int(dut_in_pixel_hist_x_size / in_pixel_resolution[0])
+                            hist_in_pixel_x_n_bins, dut_in_pixel_hist_x_size = _hist_size(np.ceil(np.max(in_pixel_intersection_x_local) / actual_dut.column_size) * actual_dut.column_size, in_pixel_resolution[0])
                             hist_in_pixel_x_edges = np.linspace(0.0, dut_in_pixel_hist_x_size, hist_in_pixel_x_n_bins + 1, endpoint=True)
                         if np.any(in_pixel_intersection_y_local > dut_in_pixel_hist_y_size):
                             resize_in_pixel_hist = True
-                            dut_in_pixel_hist_y_size = math.ceil(np.ceil(np.max(in_pixel_intersection_y_local) / actual_dut.row_size) * actual_dut.row_size / in_pixel_resolution[1]) * in_pixel_resolution[1]
-                            hist_in_pixel_y_n_bins = int(dut_in_pixel_hist_y_size / in_pixel_resolution[1])
+                            hist_in_pixel_y_n_bins, dut_in_pixel_hist_y_size = _hist_size(np.ceil(np.max(in_pixel_intersection_y_local) / actual_dut.row_size) * actual_dut.row_size, in_pixel_resolution[1])
                             hist_in_pixel_y_edges = np.linspace(0.0, dut_in_pixel_hist_y_size, hist_in_pixel_y_n_bins + 1, endpoint=True)
                         if resize_in_pixel_hist:
                             hist_in_pixel_2d_edges = [hist_in_pixel_x_edges, hist_in_pixel_y_edges]
-- 
2.43.0


From 63e872e4374dce5f2e141e7354712409b32f3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:03 +0000
Subject: [PATCH 43/86] fix: calculate_efficiency with chunks or regions
 without tracks or hits

---
 beam_telescope_analysis/result_analysis.py | 55 +++++++++++++---------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 142a0c3..eb35b84 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1033,6 +1033,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                 pbar = tqdm(total=node.shape[0], ncols=80)
                 initialize = True
+                count_tracks_2d_hist = np.zeros(shape=(hist_2d_x_n_bins, hist_2d_y_n_bins), dtype=np.float64)
                 start_index_cluster_hits = 0
                 chunk_indices = []
                 efficiency_chunks = []
@@ -1171,11 +1172,14 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             select_valid_tracks_efficiency_region &= intersection_y_local > min(region[1])
                             select_valid_tracks_efficiency_region &= intersection_y_local < max(region[1])
 
-                            # Moving average
-                            efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
-                            efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region)
-                            # Per chunk
-                            efficiency_regions_efficiencies_chunk[region_index] = np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region]) / np.count_nonzero(select_valid_tracks_efficiency_region)
+                            if np.any(select_valid_tracks_efficiency_region):
+                                # Moving average
+                                efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
+                                efficiency_regions_stat[region_index] = efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region)
+                                # Per chunk
+                                efficiency_regions_efficiencies_chunk[region_index] = np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region]) / np.count_nonzero(select_valid_tracks_efficiency_region)
+                            else:  # no tracks in this chunk
+                                efficiency_regions_efficiencies_chunk[region_index] = np.nan
                             if efficiency_regions_count_1d_charge_hist[region_index] is None:
                                 efficiency_regions_count_1d_charge_hist[region_index] = np.bincount(charge[select_valid_tracks_efficiency_region & select_valid_hit].astype(np.int64))
                             else:
@@ -1203,25 +1207,25 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 else:
                                     efficiency_region_count_1d_cluster_size_hist_tmp.resize(efficiency_regions_count_1d_cluster_size_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_cluster_size_hist[region_index] += efficiency_region_count_1d_cluster_size_hist_tmp
-                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_total_angle_hist[region_index] is None and np.any(select_valid_tracks_efficiency_region & select_valid_hit):
                                 local_total_mean = np.nanmean(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_total_std = np.nanstd(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_total_mean - 5 * local_total_std, local_total_mean + 5 * local_total_std))
-                            else:
+                            elif efficiency_regions_count_1d_total_angle_hist[region_index] is not None:
                                 efficiency_region_count_1d_total_angle_hist_tmp = np.histogram(total_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_total_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_total_angle_hist[region_index] += efficiency_region_count_1d_total_angle_hist_tmp
-                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_alpha_angle_hist[region_index] is None and np.any(select_valid_tracks_efficiency_region & select_valid_hit):
                                 local_alpha_mean = np.nanmean(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_alpha_std = np.nanstd(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_alpha_mean - 5 * local_alpha_std, local_alpha_mean + 5 * local_alpha_std))
-                            else:
+                            elif efficiency_regions_count_1d_alpha_angle_hist[region_index] is not None:
                                 efficiency_region_count_1d_alpha_angle_hist_tmp = np.histogram(alpha_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_alpha_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_alpha_angle_hist[region_index] += efficiency_region_count_1d_alpha_angle_hist_tmp
-                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None:
+                            if efficiency_regions_count_1d_beta_angle_hist[region_index] is None and np.any(select_valid_tracks_efficiency_region & select_valid_hit):
                                 local_beta_mean = np.nanmean(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 local_beta_std = np.nanstd(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit])
                                 efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=n_bins_track_angle, range=(local_beta_mean - 5 * local_beta_std, local_beta_mean + 5 * local_beta_std))
-                            else:
+                            elif efficiency_regions_count_1d_beta_angle_hist[region_index] is not None:
                                 efficiency_region_count_1d_beta_angle_hist_tmp = np.histogram(beta_angles_local[select_valid_tracks_efficiency_region & select_valid_hit], bins=efficiency_regions_count_1d_beta_angle_hist_edges[region_index])[0]
                                 efficiency_regions_count_1d_beta_angle_hist[region_index] += efficiency_region_count_1d_beta_angle_hist_tmp
                             if efficiency_regions_count_1d_cluster_shape_hist[region_index] is None:
@@ -1243,7 +1247,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
 
                             # for in-pixel statistics
                             # 2D in-pixel tracks
-                            count_in_pixel_tracks_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
+                            count_in_pixel_tracks_2d_hists[region_index] += _binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                             if np.any(select_valid_tracks_efficiency_region & select_valid_hit):  # Check for valid hits
                                 count_in_pixel_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel hits
@@ -1288,14 +1292,14 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     _, closest_indices_with_hit = pixel_center_extended_kd_tree.query(np.column_stack((intersection_x_local[select_valid_hit], intersection_y_local[select_valid_hit])))
                     count_tracks_with_hit_pixel_hist += np.bincount(closest_indices_with_hit, minlength=pixel_center_data.shape[0])[:pixel_center_data.shape[0]]
 
+                    # 2D tracks
+                    # Per chunk
+                    count_tracks_2d_hist_chunk = _binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
+                    count_tracks_2d_hist += count_tracks_2d_hist_chunk
                     # Check if DUT has valid hits
                     if initialize:
-                        initialize = False
-                        # 2D tracks
-                        count_tracks_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
-                        # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist
                         if np.any(select_valid_hit):  # Check for valid hits
+                            initialize = False
                             # 2D hits
                             count_hits_2d_hist, _, _, _ = stats.binned_statistic_2d(x=hit_x_local[select_valid_hit], y=hit_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)
                             # 2D tracks with valid hit
@@ -1359,10 +1363,6 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # Per chunk
                             count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist
                     else:
-                        # 2D tracks
-                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
-                        # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist_tmp
                         if np.any(select_valid_hit):  # Check for valid hits
                             count_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)[0]
                             # 2D hits
@@ -1435,7 +1435,6 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # updated last:
                             # 2D tracks with valid hit
                             count_tracks_with_hit_2d_hist += count_tracks_with_hit_2d_hist_tmp
-                        count_tracks_2d_hist += count_tracks_2d_hist_tmp
                     if in_cluster_file_h5:
                         # get 2D indices (without overflow bins)
                         binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
@@ -1477,7 +1476,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                         continue
 
                     # Global efficiency per chunk
-                    if np.any(select_valid_hit):
+                    if np.any(select_valid_hit) and np.any(count_tracks_2d_hist_chunk):
                         # Calculate mean efficiency without any binning per chunk
                         eff_chunk, eff_chunk_err_min, eff_chunk_err_max = analysis_utils.get_mean_efficiency(
                             array_pass=count_tracks_with_hit_2d_hist_chunk,
@@ -1495,6 +1494,9 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     pbar.update(tracks_chunk.shape[0])
                 pbar.close()
 
+                if initialize:
+                    raise RuntimeError('No hits found for DUT%d, consider changing cut values!' % actual_dut_index)
+
                 # Calculate efficiency
                 stat_2d_efficiency_hist = np.full_like(count_tracks_2d_hist, fill_value=np.nan, dtype=np.float64)
                 stat_2d_efficiency_hist[count_tracks_2d_hist != 0] = count_tracks_with_hit_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) / count_tracks_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) * 100.0
@@ -1513,6 +1515,13 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     efficiency_regions_stat_in_pixel_efficiency_2d_hist = []
 
                     for region_index, region in enumerate(efficiency_regions_dut):
+                        if efficiency_regions_stat[region_index] == 0:  # no tracks, efficiency is not defined
+                            efficiency_regions_efficiencies[region_index] = np.nan
+                        if efficiency_regions_count_1d_total_angle_hist[region_index] is None:  # no hits
+                            efficiency_regions_count_1d_total_angle_hist[region_index], efficiency_regions_count_1d_total_angle_hist_edges[region_index] = np.histogram([], bins=n_bins_track_angle)
+                            efficiency_regions_count_1d_alpha_angle_hist[region_index], efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = np.histogram([], bins=n_bins_track_angle)
+                            efficiency_regions_count_1d_beta_angle_hist[region_index], efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = np.histogram([], bins=n_bins_track_angle)
+
                         efficiency_regions_stat_pixel_efficiency_hist[region_index] = np.full_like(efficiency_regions_count_tracks_pixel_hist[region_index], fill_value=np.nan, dtype=np.float64)
                         efficiency_regions_stat_pixel_efficiency_hist[region_index][efficiency_regions_count_tracks_pixel_hist[region_index] != 0] = efficiency_regions_count_tracks_with_hit_pixel_hist[region_index][efficiency_regions_count_tracks_pixel_hist[region_index] != 0].astype(np.float64) / efficiency_regions_count_tracks_pixel_hist[region_index][efficiency_regions_count_tracks_pixel_hist[region_index] != 0].astype(np.float64) * 100.0
                         efficiency_regions_stat_pixel_efficiency_hist[region_index] = np.ma.array(efficiency_regions_stat_pixel_efficiency_hist[region_index], mask=efficiency_regions_count_tracks_pixel_hist[region_index] < minimum_track_density)
-- 
2.43.0


From 6bd66438e309730c2a7408493cac75445e3e6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 44/86] fix: cluster shape selection in calculate_efficiency

---
 beam_telescope_analysis/result_analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index eb35b84..c475c49 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1102,7 +1102,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # select cluser shapes with cluster size <=4
                     select_small_cluster_sizes = np.zeros_like(select_valid_hit)
                     for cluster_shape_value in efficiency_regions_analyze_cluster_shapes:
-                        select_small_cluster_sizes |= cluster_shape_value == cluster_shape_value
+                        select_small_cluster_sizes |= cluster_shape == cluster_shape_value
                     if efficiency_regions_dut is not None:
                         # for in-pixel statistics
                         # if neccessary increase size of primitive cell (may be larger than single pixel)
@@ -1277,10 +1277,10 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 stat_in_pixel_cluster_size_2d_hist_tmp = np.nan_to_num(stat_in_pixel_cluster_size_2d_hist_tmp)
                                 stat_in_pixel_cluster_size_2d_hists[region_index], _ = np.ma.average(a=np.stack([stat_in_pixel_cluster_size_2d_hists[region_index], stat_in_pixel_cluster_size_2d_hist_tmp]), axis=0, weights=np.stack([count_in_pixel_tracks_with_hit_2d_hists[region_index], count_in_pixel_tracks_with_hit_2d_hist_tmp]), returned=True)
                                 # 2D in-pixel cluster shape
-                                cluster_shape_mod_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes].copy()
-                                for i, cluster_shape_value in enumerate(efficiency_regions_analyze_cluster_shapes):
-                                    cluster_shape_mod_tmp[cluster_shape_mod_tmp == cluster_shape_value] = i
-                                count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
+                                select_cluster_shapes = select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes
+                                if np.any(select_cluster_shapes):
+                                    cluster_shape_indices = np.argmax(cluster_shape[select_cluster_shapes, np.newaxis] == np.array(efficiency_regions_analyze_cluster_shapes), axis=1)
+                                    count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_cluster_shapes], in_pixel_intersection_y_local[select_cluster_shapes], cluster_shape_indices], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
                                 # updated last:
                                 # 2D in-pixel tracks with valid hit
                                 count_in_pixel_tracks_with_hit_2d_hists[region_index] += count_in_pixel_tracks_with_hit_2d_hist_tmp
@@ -1402,7 +1402,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 count_1d_frame_hist_tmp.resize(count_1d_frame_hist.size, refcheck=False)
                             count_1d_frame_hist += count_1d_frame_hist_tmp
                             # 2D mean cluster size
-                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit & select_small_cluster_sizes], y=intersection_y_local[select_valid_hit & select_small_cluster_sizes], values=cluster_size[select_valid_hit & select_small_cluster_sizes], statistic='mean', bins=hist_2d_edges)
+                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=cluster_size[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_cluster_size_hist_tmp = np.nan_to_num(stat_2d_cluster_size_hist_tmp)
                             stat_2d_cluster_size_hist, _ = np.ma.average(a=np.stack([stat_2d_cluster_size_hist, stat_2d_cluster_size_hist_tmp]), axis=0, weights=np.stack([count_tracks_with_hit_2d_hist, count_tracks_with_hit_2d_hist_tmp]), returned=True)
                             # 1D total track anlge
-- 
2.43.0


From 74058e1a840e774f3f571fc964f0fbc5da00605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 45/86] fix: calculate_efficiency with cluster files

---
 beam_telescope_analysis/result_analysis.py | 24 ++++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index c475c49..1003671 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1437,23 +1437,29 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             count_tracks_with_hit_2d_hist += count_tracks_with_hit_2d_hist_tmp
                     if in_cluster_file_h5:
                         # get 2D indices (without overflow bins)
-                        binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
-                        # get 1D index, and remove 1st overflow bin
-                        tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins))
+                        selected_tracks = tracks_chunk[select_enabled_pixel_hit][select_valid_hit]
+                        if selected_tracks.shape[0] != 0:
+                            binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
+                            select_inside = np.all((binnumber >= 1) & (binnumber <= [[hist_2d_x_n_bins], [hist_2d_y_n_bins]]), axis=0)
+                            selected_tracks = selected_tracks[select_inside]
+                            # get 1D index, and remove 1st overflow bin
+                            tracks_with_hits_to_bin_center_index = np.ravel_multi_index(binnumber[:, select_inside] - 1, (hist_2d_x_n_bins, hist_2d_y_n_bins))
                         # event_number_id_array = np.repeat(np.column_stack((tracks_chunk['event_number'][select_valid_hit], tracks_chunk['cluster_id_dut_%d' % actual_dut_index][select_valid_hit])), tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit])
                         for actual_cluster_hits_dut, start_index_cluster_hits in analysis_utils.data_aligned_at_events(in_cluster_file_h5.root.ClusterHits, start_index=start_index_cluster_hits, start_event_number=tracks_chunk['event_number'][0], stop_event_number=tracks_chunk['event_number'][-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):
+                            if selected_tracks.shape[0] == 0:
+                                continue
                             cluster_hits_event_numbers_cluster_ids = actual_cluster_hits_dut[['event_number', 'cluster_ID']]
-                            selected_event_numbers_clusters_ids = np.array(tracks_chunk[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]][select_valid_hit], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
+                            selected_event_numbers_clusters_ids = np.array(selected_tracks[['event_number', 'cluster_ID_dut_%d' % actual_dut_index]], dtype=cluster_hits_event_numbers_cluster_ids.dtype)
                             selected_cluster_hits, selected_indices = analysis_utils.in1d_index(ar1=cluster_hits_event_numbers_cluster_ids, ar2=selected_event_numbers_clusters_ids, fill_invalid=None, assume_sorted=False)
                             # get the cluster hits
                             actual_cluster_hits = actual_cluster_hits_dut[selected_cluster_hits]
                             # actual_tracks = np.repeat(tracks_chunk[select_valid_hit][selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            # expand size of index array so that the length matches the cluster array
-                            actual_bin_center_indices = np.repeat(tracks_with_hits_to_bin_center_index[selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, dims=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
+                            # get the bin of the track for each cluster hit
+                            actual_bin_center_indices = tracks_with_hits_to_bin_center_index[selected_indices]
+                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, shape=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
                             # get the corresponding pixel center for each track
                             actual_pixel_center_indices = bin_center_to_pixel_center[actual_bin_center_indices]
-                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, dims=(actual_dut.n_columns, actual_dut.n_rows)))
+                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, shape=(actual_dut.n_columns, actual_dut.n_rows)))
                             # get the corresponding cluster hits
                             actual_cluster_hits_col_row_pair = np.column_stack((actual_cluster_hits['column'] - 1, actual_cluster_hits['row'] - 1))
                             # calculate the relative index
@@ -1465,7 +1471,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             hits_select &= actual_row_index >= 0
                             hits_select &= actual_row_index < count_pixel_hits_2d_hist.shape[3]
                             # check for significant number of hits outside of the array
-                            if np.count_nonzero(~hits_select) / hits_select.shape[0] > 1e-3:
+                            if np.count_nonzero(~hits_select) > 1e-3 * hits_select.shape[0]:
                                 logging.warning('Consider increasing shape of count_pixel_hits_2d_hist')
                             ravel_indices = np.ravel_multi_index((actual_bin_center_col_row_pair[hits_select, 0], actual_bin_center_col_row_pair[hits_select, 1], actual_col_index[hits_select], actual_row_index[hits_select]), dims=count_pixel_hits_2d_hist.shape)
                             unique_indices, unique_indices_count = np.unique(ravel_indices, return_counts=True)
-- 
2.43.0


From 6860631e4a1a9c6d98eb1f7057a094bb7c762106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:35 +0000
Subject: [PATCH 46/86] fix: partly defined settings of calculate_efficiency

---
 beam_telescope_analysis/result_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 1003671..e47b1b5 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -845,6 +845,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 resolution = resolutions[index]
                 if resolution is None:
                     resolution = actual_dut.pixel_size
+                resolution = list(resolution)
                 if resolution[0] is None:
                     resolution[0] = actual_dut.pixel_size[0]
                 if resolution[1] is None:
@@ -891,6 +892,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     in_pixel_resolution = in_pixel_resolutions[index]
                     if in_pixel_resolution is None:
                         in_pixel_resolution = list(map(min, zip(resolution, [pitch / 10.0 for pitch in actual_dut.pixel_size])))
+                    in_pixel_resolution = list(in_pixel_resolution)
                     if in_pixel_resolution[0] is None:
                         in_pixel_resolution[0] = min(resolution[0], actual_dut.pixel_size[0] / 10.0)
                     if in_pixel_resolution[1] is None:
@@ -1087,6 +1089,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     cut_distance = cut_distances[index]
                     if cut_distance is None:
                         cut_distance = (np.inf, np.inf)
+                    cut_distance = list(cut_distance)
                     if cut_distance[0] is None:
                         cut_distance[0] = np.inf
                     if cut_distance[1] is None:
-- 
2.43.0


From 7acc3cc7ff91e604b4f6bd298a561992b73d70e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:47 +0000
Subject: [PATCH 47/86] fix: Voronoi regions with different number of vertices

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index a40e4b7..5316aa1 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1145,7 +1145,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     ridge_vertices_with_vertex_inside_sel &= np.all(np.isin(vor_ridge_vertices, vertices_indices_inside), axis=1)
     ridge_vertices_indices_with_vertex_inside = np.where(ridge_vertices_with_vertex_inside_sel)[0]
     # TODO: remove not used vertices and update indices lists
-    return vor.points, np.array(vor.regions)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
+    return vor.points, [vor.regions[index] for index in new_regions_indices], vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
 
 
 def polygon_area(x, y):
-- 
2.43.0


From 8472a202016e01ef584a66d20630bb31b5eaf48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 48/86] fix: efficiency region without hits

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index e47b1b5..c1242d4 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1202,7 +1202,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                     efficiency_region_count_1d_frame_hist_tmp.resize(efficiency_regions_count_1d_frame_hist[region_index].size, refcheck=False)
                                 efficiency_regions_count_1d_frame_hist[region_index] += efficiency_region_count_1d_frame_hist_tmp
                             if efficiency_regions_count_1d_cluster_size_hist[region_index] is None:
-                                efficiency_regions_count_1d_cluster_size_hist[region_index] = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit])
+                                efficiency_regions_count_1d_cluster_size_hist[region_index] = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit], minlength=1)
                             else:
                                 efficiency_region_count_1d_cluster_size_hist_tmp = np.bincount(cluster_size[select_valid_tracks_efficiency_region & select_valid_hit])
                                 if efficiency_region_count_1d_cluster_size_hist_tmp.size > efficiency_regions_count_1d_cluster_size_hist[region_index].size:
-- 
2.43.0


From 29555abebd8d891471903fd68b8a335f1a6c769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 49/86] fix: calculate_purity

---
 beam_telescope_analysis/result_analysis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index c1242d4..e431380 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2251,7 +2251,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                         continue
                     total_pure_hit_hist += (np.histogram2d(pure_hits_local[:, 0], pure_hits_local[:, 1], bins=(n_bin_x, n_bin_y), range=[actual_dut.x_extent(), actual_dut.y_extent()])[0]).astype(np.uint32)
 
-                purity = np.zeros_like(total_hit_hist)
+                purity = np.zeros_like(total_hit_hist, dtype=np.float64)
                 purity[total_hit_hist != 0] = total_pure_hit_hist[total_hit_hist != 0].astype(np.float64) / total_hit_hist[total_hit_hist != 0].astype(np.float64) * 100.0
                 purity = np.ma.array(purity, mask=total_hit_hist < minimum_hit_density)
                 # calculate sensor purity by weighting each pixel purity with total number of hits within the pixel
@@ -2261,6 +2261,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     raise RuntimeError('No pure hit for DUT%d, consider changing cut values or check track building!', actual_dut_index)
 
                 plot_utils.purity_plots(
+                    telescope,
                     total_pure_hit_hist,
                     total_hit_hist, purity,
                     purity_sensor,
@@ -2270,7 +2271,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     cut_distance=cut_distance,
                     output_pdf=output_pdf)
 
-                logging.info('Purity =  %1.4f +- %1.4f%%' % np.ma.mean(purity), np.ma.std(purity))
+                logging.info('Purity =  %1.4f +- %1.4f%%' % (np.ma.mean(purity), np.ma.std(purity)))
                 purities.append(np.ma.mean(purity))
                 purities_sensor_mean.append(np.ma.mean(purity_sensor))
 
-- 
2.43.0


From abb0f146e11562cad95d18e0caf96782d76ca52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 50/86] fix: settings of calculate_purity

---
 beam_telescope_analysis/result_analysis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index e431380..d622a89 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2183,7 +2183,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                 logging.info('Calculating purity for %s', actual_dut.name)
 
                 # Calculate histogram properties (bins size and number of bins)
-                bin_size = [bin_size, ] if not isinstance(bin_size, Iterable) else bin_size
+                bin_size = [bin_size, ] if not isinstance(bin_size[0], Iterable) else bin_size
                 if len(bin_size) != 1:
                     actual_bin_size_x = bin_size[index][0]
                     actual_bin_size_y = bin_size[index][1]
@@ -2195,8 +2195,8 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                 dut_y_size = np.abs(np.diff(actual_dut.y_extent()))[0]
                 sensor_size = [dut_x_size, dut_y_size]
                 dimensions = sensor_size
-                n_bin_x = int(dut_x_size / actual_bin_size_x)
-                n_bin_y = int(dut_y_size / actual_bin_size_y)
+                n_bin_x = int(round(dut_x_size / actual_bin_size_x, 6))  # size and bin size are floats, do not lose a bin because of rounding errors
+                n_bin_y = int(round(dut_y_size / actual_bin_size_y, 6))
 
                 # Define result histograms, these are filled for each hit chunk
                 total_hit_hist = np.zeros(shape=(n_bin_x, n_bin_y), dtype=np.uint32)
@@ -2219,7 +2219,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     hits_local_dut = np.column_stack((hit_x_local_dut, hit_y_local_dut))
 
                     # Select hits from column, row range (e.g. to supress edge pixels)
-                    local_x_range = [local_x_range, ] if not isinstance(local_x_range, Iterable) else local_x_range
+                    local_x_range = [local_x_range, ] if local_x_range is None or np.isscalar(local_x_range[0]) else local_x_range
                     if len(local_x_range) == 1:
                         curr_local_x_range = local_x_range[0]
                     else:
@@ -2228,7 +2228,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                         selection = np.logical_and(intersections_local[:, 0] >= curr_local_x_range[0], intersections_local[:, 0] <= curr_local_x_range[1])  # Select real hits
                         hits_local, intersections_local = hits_local[selection], intersections_local[selection]
 
-                    local_y_range = [local_y_range, ] if not isinstance(local_y_range, Iterable) else local_y_range
+                    local_y_range = [local_y_range, ] if local_y_range is None or np.isscalar(local_y_range[0]) else local_y_range
                     if len(local_y_range) == 1:
                         curr_local_y_range = local_y_range[0]
                     else:
@@ -2244,7 +2244,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     total_hit_hist += (np.histogram2d(hits_local_dut[:, 0], hits_local_dut[:, 1], bins=(n_bin_x, n_bin_y), range=[actual_dut.x_extent(), actual_dut.y_extent()])[0]).astype(np.uint32)
 
                     # Calculate purity
-                    pure_hits_local = hits_local[distance_local < cut_distance]
+                    pure_hits_local = hits_local[distance_local < (np.inf if cut_distance is None else cut_distance)]
 
                     if not np.any(pure_hits_local):
                         logging.warning('No pure hits in DUT%d, cannot calculate purity', actual_dut_index)
-- 
2.43.0


From 8b10d0ec3b165e5e279e69d51b34a90ca5bb26c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 51/86] fix: number of simulated events

---
 beam_telescope_analysis/tools/simulate_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 978f60a..ff5e8e2 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -481,8 +481,9 @@ class SimulateData(object):
             show_progress = False
         # Fill output files in chunks
         for chunk_index, _ in enumerate(range(0, n_events, chunk_size)):
+            start_event_number = chunk_index * chunk_size
             actual_events, actual_digitized_hits = self._create_data(
-                start_event_number=chunk_index * chunk_size, n_events=chunk_size)
+                start_event_number=start_event_number, n_events=min(chunk_size, n_events - start_event_number))
             for dut_index in range(self._n_duts):
                 actual_dut_events, actual_dut_hits = actual_events[
                     dut_index], actual_digitized_hits[dut_index]
-- 
2.43.0


From 8e20dc91bc29a98e59d1e04a7e8c1446df09f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 52/86] fix: charge sharing in the last column and row

---
 beam_telescope_analysis/tools/simulate_data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index ff5e8e2..cabd6e2 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -144,7 +144,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
     # FIXME: Charges are distributed along a track and not in the center z
     position_z = thickness / 2
     # Calc charge in pixels in + column direction
-    for actual_column in range(int(column), max_column):
+    for actual_column in range(int(column), max_column + 1):
         # Omit row loop if charge fraction is already too low for seed row (=0)
         if (total_fraction >= 1. - min_fraction or
             _calc_charge_fraction(
@@ -160,7 +160,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
             break
 
         # Calc charge in pixels in + row direction
-        for actual_row in range(int(row), max_row):
+        for actual_row in range(int(row), max_row + 1):
             fraction = _calc_charge_fraction(
                 position=relative_position,
                 position_z=position_z,
@@ -233,7 +233,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
             break
 
         # Calc charge in pixels in + row direction
-        for actual_row in range(int(row), max_row):
+        for actual_row in range(int(row), max_row + 1):
             fraction = _calc_charge_fraction(
                 position=relative_position,
                 position_z=position_z,
-- 
2.43.0


From f29552a138ed08e875e3cc7625dd545299745807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 53/86] fix: charge cloud correction of the simulation

---
 beam_telescope_analysis/tools/simulate_data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index cabd6e2..ec2b85c 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -294,7 +294,7 @@ def _create_cs_hits(relative_position, column, row, charge, max_column, max_row,
 
 
 @njit()
-def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thickness, pixel_size_x, pixel_size_y, temperature, bias):
+def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thickness, pixel_size_x, pixel_size_y, temperature, bias, digitization_sigma_cc):
     ''' Add additional hits to seed hits due to charge sharing.
     '''
 
@@ -317,7 +317,7 @@ def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thicknes
             pixel_size_y=pixel_size_y,
             temperature=temperature,
             bias=bias,
-            digitization_sigma_cc=1.,
+            digitization_sigma_cc=digitization_sigma_cc,
             result_hits=result_hits,
             index=index)
 
@@ -744,7 +744,8 @@ class SimulateData(object):
                         pixel_size_x=self.dut_pixel_size[dut_index][0],
                         pixel_size_y=self.dut_pixel_size[dut_index][1],
                         temperature=self.temperature,
-                        bias=self.dut_bias[dut_index])
+                        bias=self.dut_bias[dut_index],
+                        digitization_sigma_cc=self.digitization_sigma_cc)
                     actual_event_number = np.repeat(actual_event_number, n_hits_per_event)
 
                 # Delete hits outside of the DUT
-- 
2.43.0


From d48a8e3d8237c8d18c77002707e92216dbbba056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 54/86] fix: beam size in y

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index ec2b85c..092df7f 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -528,7 +528,7 @@ class SimulateData(object):
             track_positions_x = np.repeat(self.beam_position[0], repeats=n_tracks)  # Constant x = mean_x
 
         if self.beam_position_sigma[1] != 0:
-            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[0], n_tracks)
+            track_positions_y = np.random.normal(self.beam_position[1], self.beam_position_sigma[1], n_tracks)
 
         else:
             track_positions_y = np.repeat(self.beam_position[1], repeats=n_tracks)  # Constant y = mean_y
-- 
2.43.0


From 4f5ce69a1a68a1b082b1a9692d7fe53e77e4e436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 55/86] fix: standard settings for more simulated DUTs

---
 beam_telescope_analysis/tools/simulate_data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 092df7f..634bac0 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -375,11 +375,12 @@ class SimulateData(object):
 
     @n_duts.setter
     def n_duts(self, value):
-        if value > self._n_duts:
+        increased = value > self._n_duts
+        self._n_duts = value
+        if increased:
             logging.warning(
                 'Number of DUTs increased, reset to standard settings!')
             self.set_std_settings()
-        self._n_duts = value
 
     def set_std_settings(self):
         # Setup settings
-- 
2.43.0


From 5033575966c087dca82467830d057fbda18f3cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:03 +0000
Subject: [PATCH 56/86] fix: size of the charge sharing result array

---
 beam_telescope_analysis/tools/simulate_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 634bac0..854ac56 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -301,7 +301,7 @@ def _add_charge_sharing_hits(rel_pos, hits_digits, max_column, max_row, thicknes
     n_hits_per_seed_hit = np.zeros(hits_digits.shape[0], dtype=np.int16)
     # Result array to be filled; up to 10 hits per seed hit is possible
     result_hits = np.zeros(
-        shape=(5 * hits_digits.shape[0], 3), dtype=np.float64)
+        shape=(10 * hits_digits.shape[0], 3), dtype=np.float64)
     index = 0
     for d_index in range(hits_digits.shape[0]):
         actual_hit_digit = hits_digits[d_index]
-- 
2.43.0


From 6789ef824d32be58409e8a4441c188d011a7ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 57/86] fix: comparison of arrays with strings

---
 beam_telescope_analysis/tools/test_tools.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/test_tools.py b/beam_telescope_analysis/tools/test_tools.py
index dee6a42..9986481 100644
--- a/beam_telescope_analysis/tools/test_tools.py
+++ b/beam_telescope_analysis/tools/test_tools.py
@@ -110,6 +110,9 @@ def nan_close(first_array, second_array, rtol=1e-5, atol=1e-8, equal_nan=True):
         # Check for same dtypes
         if first_array.dtype != second_array.dtype:
             return False
+        # Workaround for string data types
+        if first_array.dtype.kind in 'SU':
+            return bool(np.all(first_array == second_array))
         return np.allclose(a=first_array, b=second_array, rtol=rtol, atol=atol, equal_nan=equal_nan)
     else:
         # Check for same column names and same order
@@ -120,8 +123,10 @@ def nan_close(first_array, second_array, rtol=1e-5, atol=1e-8, equal_nan=True):
             if first_array[column].dtype != second_array[column].dtype:
                 return False
             # Workaround for string data types
-            if first_array[column].dtype.type is np.string_:
-                return np.all(first_array[column] == second_array[column])
+            if first_array[column].dtype.kind in 'SU':
+                if not np.all(first_array[column] == second_array[column]):
+                    return False
+                continue
             # Check for similarity
             if not np.allclose(a=first_array[column], b=second_array[column], rtol=rtol, atol=atol, equal_nan=equal_nan):
                 return False
@@ -156,7 +161,7 @@ def get_array_differences(first_array, second_array, exact=True, rtol=1e-5, atol
                 compare_str += ' Sum:\n  first: %s\n  second: %s\n' % (str(np.nansum(actual)), str(np.nansum(desired)))
         except TypeError:  # cannot perform reduce with flexible type
             pass
-        if exact:
+        if exact or actual.dtype.kind in 'SU' or desired.dtype.kind in 'SU':
             try:
                 np.testing.assert_equal(actual=actual, desired=desired)
             except AssertionError as e:
-- 
2.43.0


From 5b419cfe29ff1e1dc8d54ea014006dba75878c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 58/86] fix: comparison of nodes with different number of rows

---
 beam_telescope_analysis/tools/test_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/test_tools.py b/beam_telescope_analysis/tools/test_tools.py
index 9986481..52768e7 100644
--- a/beam_telescope_analysis/tools/test_tools.py
+++ b/beam_telescope_analysis/tools/test_tools.py
@@ -284,9 +284,9 @@ def compare_h5_files(first_file, second_file, node_names=None, ignore_nodes=None
                         error_msg += 'File %s is missing nodes: %s\n' % (second_file, ', '.join(missing_second_file_nodes))
                 common_nodes = (set(fist_file_nodes) & set(second_file_nodes)) & set(node_names)
             for node_name in common_nodes:  # loop over all nodes and compare each node, do not abort if one node is wrong
-                nrows = first_h5_file.get_node(first_h5_file.root, node_name).nrows
+                nrows = max(first_h5_file.get_node(first_h5_file.root, node_name).nrows, second_h5_file.get_node(second_h5_file.root, node_name).nrows)
                 index_start = 0
-                while index_start < nrows:
+                while index_start < max(1, nrows):  # also compare the type of empty nodes
                     # reduce memory footprint by taken array dimension into account
                     read_nrows = max(1, int(chunk_size / np.prod(first_h5_file.get_node(first_h5_file.root, node_name).shape[1:])))
                     index_stop = index_start + read_nrows
-- 
2.43.0


From b4ba2bf13bd4f2eca9557165b5c698a25710c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 59/86] fix: create_fixture and create_folder

---
 beam_telescope_analysis/tools/test_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/test_tools.py b/beam_telescope_analysis/tools/test_tools.py
index 52768e7..8874caa 100644
--- a/beam_telescope_analysis/tools/test_tools.py
+++ b/beam_telescope_analysis/tools/test_tools.py
@@ -3,6 +3,7 @@
 from __future__ import division
 
 import os
+import errno
 import inspect
 import itertools
 import yaml
@@ -378,7 +379,7 @@ def create_fixture(function, **kwargs):
     '''
 
     # Check if all parameters are defined
-    func_args = inspect.getargspec(function)[0]
+    func_args = inspect.getfullargspec(function)[0]
     if not all([a in kwargs for a in func_args]):
         raise RuntimeError('Not all function arguments values defined')
 
-- 
2.43.0


From e89b49813ca6b60bec4afbe4a27b93f49dfc9716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:22 +0000
Subject: [PATCH 60/86] fix: type of the efficiency center region

---
 beam_telescope_analysis/tools/plot_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index db9e88d..225910c 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -2279,10 +2279,10 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 for w, loc in zip(widths_in_pixel_regions, center_location_in_pixel_regions):
                     center_region_indices = np.ceil((np.array(loc) - np.array([efficiency_regions_in_pixel_hist_extent[0], efficiency_regions_in_pixel_hist_extent[2]])) / in_pixel_resolution)
                     center_region_extent = np.array(w) / in_pixel_resolution
-                    center_region_selection = [np.int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
+                    center_region_selection = [int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
                     rect = matplotlib.patches.Rectangle((loc[0] - w[0] / 2.0, loc[1] - w[1] / 2.0), w[0], w[1], linewidth=1.2, edgecolor=in_pixel_mesh_color, facecolor='none')
                     ax.add_patch(rect)
                     mean = np.mean(efficiency_regions_stat_in_pixel_efficiency_2d_hist[region_index][center_region_selection[0]:center_region_selection[1], center_region_selection[2]:center_region_selection[3]].compressed())
@@ -2316,10 +2316,10 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 for w, loc in zip(widths_in_pixel_regions, center_location_in_pixel_regions):
                     center_region_indices = np.ceil((np.array(loc) - np.array([efficiency_regions_in_pixel_hist_extent[0], efficiency_regions_in_pixel_hist_extent[2]])) / in_pixel_resolution)
                     center_region_extent = np.array(w) / in_pixel_resolution
-                    center_region_selection = [np.int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
+                    center_region_selection = [int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
                     rect = matplotlib.patches.Rectangle((loc[0] - w[0] / 2.0, loc[1] - w[1] / 2.0), w[0], w[1], linewidth=1.2, edgecolor=in_pixel_mesh_color, facecolor='none')
                     ax.add_patch(rect)
                     mean = np.mean(efficiency_regions_stat_in_pixel_efficiency_2d_hist[region_index][center_region_selection[0]:center_region_selection[1], center_region_selection[2]:center_region_selection[3]].compressed())
-- 
2.43.0


From 0e46e70140a49ce481118747ca2d38a79c557cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 61/86] fix: last index of hist_quantiles

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 5316aa1..09f0f94 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -234,7 +234,7 @@ def hist_quantiles(hist, prob=(0.05, 0.95), return_indices=False, copy=True):
         hp = np.where(unormcdf > prob[1])[0][0]
         lp = np.where(unormcdf >= prob[0])[0][0]
     except IndexError:
-        hp_index = hist_t.shape[0]
+        hp_index = hist_t.shape[0] - 1
         lp_index = 0
     else:
         hp_index = indices[hp]
-- 
2.43.0


From 4eb5d6982572841f675458bbce9ba572bcf4fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 62/86] fix: in1d_index with empty second array

---
 beam_telescope_analysis/tools/analysis_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 09f0f94..ebe17e4 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1205,6 +1205,11 @@ def in1d_index(ar1, ar2, fill_invalid=None, assume_sorted=False):
     in1d_index : ndarray
         The indices of ar2 that occur in ar1.
     '''
+    if ar2.shape[0] == 0:
+        if fill_invalid is None:
+            return np.zeros(0, dtype=np.intp), np.zeros(0, dtype=np.intp)
+        else:
+            return np.zeros(0, dtype=np.intp), np.full(ar1.shape, fill_invalid, dtype=np.intp)
     if assume_sorted:
         ar2_index = np.searchsorted(ar2, ar1)
     else:
-- 
2.43.0


From c70d80d4f95fd56964b3ab123cec446970561476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 63/86] fix: Qhull errors of Voronoi cells

---
 beam_telescope_analysis/tools/analysis_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index ebe17e4..8a22c74 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1098,7 +1098,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     """
     if len(points.shape) != 2 or points.shape[1] != 2:
         raise ValueError("Requires 2D voronoi data")
-    vor = Voronoi(points, incremental=True)
+    vor = Voronoi(points)
     n_points = vor.points.shape[0]
     # select Voronoi regions with invalid ("infinite") vetices and vertices outside the boundary
     vertices_outside_sel = ((vor.vertices[:, 0] >= max(dut_extent[:2])) & ~np.isclose(vor.vertices[:, 0], max(dut_extent[:2])))
@@ -1132,7 +1132,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     points_down[:, 1] += (max(dut_extent[2:]) + min(dut_extent[2:])) / 2.0 - np.ptp(dut_extent[2:])
     # adding the points and generate new Voronoi regions
     mirrored_points = np.concatenate((points_up, points_down, points_left, points_right))
-    vor.add_points(mirrored_points)
+    vor = Voronoi(np.concatenate((points, mirrored_points)))
     new_regions_indices = vor.point_region[:n_points]
     # select Voronoi regions with valid vetices and vertices inside the boundary
     vertices_inside_sel = ((vor.vertices[:, 0] <= max(dut_extent[:2])) | np.isclose(vor.vertices[:, 0], max(dut_extent[:2])))
-- 
2.43.0


From 73787829e953581be6f5294cfdd549ef5bb6904b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 64/86] fix: configurations from dict and open file in Python 3

---
 beam_telescope_analysis/telescope/telescope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/telescope/telescope.py b/beam_telescope_analysis/telescope/telescope.py
index 5e45ddf..f94717c 100644
--- a/beam_telescope_analysis/telescope/telescope.py
+++ b/beam_telescope_analysis/telescope/telescope.py
@@ -29,7 +29,7 @@ def open_configuation(configuation):
                 configuration_dict.update(safe_load(f))
         else:  # YAML string
             configuration_dict.update(safe_load(configuation))
-    elif isinstance(configuation, file):  # parse the first YAML document in a stream
+    elif hasattr(configuation, 'read'):  # parse the first YAML document in a stream
         logging.info('Loading configuration from file %s', os.path.abspath(configuation.name))
         configuration_dict.update(safe_load(configuation))
     elif isinstance(configuation, (dict, OrderedDict)):  # conf is already a dict
-- 
2.43.0


From 97d0e34614dbc92882038e9d7f923021be5e92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 65/86] revert: changes of test_tools.py (it counts as a test
 file)

Undoes b4ba2bf, 5b419cf and 6789ef8.
---
 beam_telescope_analysis/tools/test_tools.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/beam_telescope_analysis/tools/test_tools.py b/beam_telescope_analysis/tools/test_tools.py
index 8874caa..dee6a42 100644
--- a/beam_telescope_analysis/tools/test_tools.py
+++ b/beam_telescope_analysis/tools/test_tools.py
@@ -3,7 +3,6 @@
 from __future__ import division
 
 import os
-import errno
 import inspect
 import itertools
 import yaml
@@ -111,9 +110,6 @@ def nan_close(first_array, second_array, rtol=1e-5, atol=1e-8, equal_nan=True):
         # Check for same dtypes
         if first_array.dtype != second_array.dtype:
             return False
-        # Workaround for string data types
-        if first_array.dtype.kind in 'SU':
-            return bool(np.all(first_array == second_array))
         return np.allclose(a=first_array, b=second_array, rtol=rtol, atol=atol, equal_nan=equal_nan)
     else:
         # Check for same column names and same order
@@ -124,10 +120,8 @@ def nan_close(first_array, second_array, rtol=1e-5, atol=1e-8, equal_nan=True):
             if first_array[column].dtype != second_array[column].dtype:
                 return False
             # Workaround for string data types
-            if first_array[column].dtype.kind in 'SU':
-                if not np.all(first_array[column] == second_array[column]):
-                    return False
-                continue
+            if first_array[column].dtype.type is np.string_:
+                return np.all(first_array[column] == second_array[column])
             # Check for similarity
             if not np.allclose(a=first_array[column], b=second_array[column], rtol=rtol, atol=atol, equal_nan=equal_nan):
                 return False
@@ -162,7 +156,7 @@ def get_array_differences(first_array, second_array, exact=True, rtol=1e-5, atol
                 compare_str += ' Sum:\n  first: %s\n  second: %s\n' % (str(np.nansum(actual)), str(np.nansum(desired)))
         except TypeError:  # cannot perform reduce with flexible type
             pass
-        if exact or actual.dtype.kind in 'SU' or desired.dtype.kind in 'SU':
+        if exact:
             try:
                 np.testing.assert_equal(actual=actual, desired=desired)
             except AssertionError as e:
@@ -285,9 +279,9 @@ def compare_h5_files(first_file, second_file, node_names=None, ignore_nodes=None
                         error_msg += 'File %s is missing nodes: %s\n' % (second_file, ', '.join(missing_second_file_nodes))
                 common_nodes = (set(fist_file_nodes) & set(second_file_nodes)) & set(node_names)
             for node_name in common_nodes:  # loop over all nodes and compare each node, do not abort if one node is wrong
-                nrows = max(first_h5_file.get_node(first_h5_file.root, node_name).nrows, second_h5_file.get_node(second_h5_file.root, node_name).nrows)
+                nrows = first_h5_file.get_node(first_h5_file.root, node_name).nrows
                 index_start = 0
-                while index_start < max(1, nrows):  # also compare the type of empty nodes
+                while index_start < nrows:
                     # reduce memory footprint by taken array dimension into account
                     read_nrows = max(1, int(chunk_size / np.prod(first_h5_file.get_node(first_h5_file.root, node_name).shape[1:])))
                     index_stop = index_start + read_nrows
@@ -379,7 +373,7 @@ def create_fixture(function, **kwargs):
     '''
 
     # Check if all parameters are defined
-    func_args = inspect.getfullargspec(function)[0]
+    func_args = inspect.getargspec(function)[0]
     if not all([a in kwargs for a in func_args]):
         raise RuntimeError('Not all function arguments values defined')
 
-- 
2.43.0


From 77e0ee80ebfd0784d6e9203c85a6bfd00596b0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 66/86] fix: order of rotations in the Kalman alignment of
 rotated DUTs

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index dd884c2..0e0fbc1 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -2089,7 +2089,7 @@ def _combine_karimaki(initial_rotation_matrix, initial_position_vector, delta_fr
     ''' Apply corrections ('delta') to initial alignment.
         Reference: https://cds.cern.ch/record/619975/files/cr03_022.pdf
     '''
-    combined_rot = np.matmul(delta_frame[0], initial_rotation_matrix)
+    combined_rot = np.matmul(initial_rotation_matrix, delta_frame[0])
     combined_offset = delta_frame[1] + initial_position_vector
     return combined_rot, combined_offset
 
-- 
2.43.0


From c6713c423bc204944c0e0cd262911c1c33cd823f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 67/86] fix: alignment parameters of the Kalman alignment for
 selected DUTs

---
 beam_telescope_analysis/dut_alignment.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 0e0fbc1..f18f25e 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1992,17 +1992,18 @@ def _calculate_initial_alignment(telescope, select_duts, select_telescope_duts,
 
         # Errors on initial alignment parameters
         if dut_index in select_duts:
-            if 'translation_x' in alignment_parameters[dut_index]:
+            dut_alignment_parameters = None if alignment_parameters is None else alignment_parameters[list(select_duts).index(dut_index)]
+            if dut_alignment_parameters is None or 'translation_x' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 0, 0] = np.square(alignment_parameters_errors[0])
-            if 'translation_y' in alignment_parameters[dut_index]:
+            if dut_alignment_parameters is None or 'translation_y' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 1, 1] = np.square(alignment_parameters_errors[1])
-            if 'translation_z' in alignment_parameters[dut_index]:
+            if dut_alignment_parameters is None or 'translation_z' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 2, 2] = np.square(alignment_parameters_errors[2])
-            if 'rotation_alpha' in alignment_parameters[dut_index]:
+            if dut_alignment_parameters is None or 'rotation_alpha' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 3, 3] = np.square(alignment_parameters_errors[3])
-            if 'rotation_beta' in alignment_parameters[dut_index]:
+            if dut_alignment_parameters is None or 'rotation_beta' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 4, 4] = np.square(alignment_parameters_errors[4])
-            if 'rotation_gamma' in alignment_parameters[dut_index]:
+            if dut_alignment_parameters is None or 'rotation_gamma' in dut_alignment_parameters:
                 actual_align_cov[dut_index, 5, 5] = np.square(alignment_parameters_errors[5])
 
     # Fix first and last telescope plane (only rotation_gamma is not fixed).
-- 
2.43.0


From f034c41f157f6ecbddeb87f6337ed96c69afd2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 68/86] fix: single or no track chi2 limit of the Kalman
 alignment

---
 beam_telescope_analysis/dut_alignment.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index f18f25e..8310257 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1117,6 +1117,12 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     if len(max_tracks) != len(select_duts):
         raise ValueError("Parameter max_tracks has the wrong length.")
 
+    if not isinstance(track_chi2, Iterable):
+        track_chi2 = [track_chi2] * len(select_duts)
+    # Finally check length
+    if len(track_chi2) != len(select_duts):
+        raise ValueError("Parameter track_chi2 has the wrong length.")
+
     if output_telescope_configuration is None:
         if 'prealigned' in telescope_configuration:
             output_telescope_configuration = telescope_configuration.replace('prealigned', 'aligned_kalman')
@@ -1535,7 +1541,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
                 chi2s_probs[track_index] = chi2s_prob
 
                 # Data quality check I: Check chi2 of track
-                if chi2s_red > track_chi2:
+                if track_chi2 and chi2s_red > track_chi2:
                     continue
 
                 # Actual track states
-- 
2.43.0


From aea98edd4adcac8fae3d17de7634b8d7cf564c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 69/86] fix: Kalman alignment without plots

---
 beam_telescope_analysis/dut_alignment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 8310257..41d2ff2 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1657,9 +1657,10 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
 
                 fitted_duts.extend(actual_fit_duts)
 
-    output_pdf_file = output_alignment_file[:-3] + '.pdf'
-    # Plot alignment result
-    plot_utils.plot_kf_alignment(output_alignment_file, telescope, output_pdf_file)
+    if plot:
+        output_pdf_file = output_alignment_file[:-3] + '.pdf'
+        # Plot alignment result
+        plot_utils.plot_kf_alignment(output_alignment_file, telescope, output_pdf_file)
 
     # Delete tmp track candidates file
     os.remove(input_track_candidates_file)
-- 
2.43.0


From ca1899216276182d95849f6591cc653b1ec070cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:21 +0000
Subject: [PATCH 70/86] fix: chunk size of the Kalman alignment

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 41d2ff2..880ab79 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1470,7 +1470,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
         alpha = np.zeros(shape=len(telescope), dtype=np.float64)  # annealing factor
 
         # Loop in chunks over tracks. After each chunk, alignment values are stored.
-        for track_candidates_chunk, index_chunk in analysis_utils.data_aligned_at_events(in_file_h5.root.TrackCandidates, chunk_size=10000):
+        for track_candidates_chunk, index_chunk in analysis_utils.data_aligned_at_events(in_file_h5.root.TrackCandidates, chunk_size=chunk_size):
             # Select only tracks for which hit requirement is fulfilled
             track_candidates_chunk_valid_hits = track_candidates_chunk[track_candidates_chunk['hit_flag'] & dut_hit_mask == dut_hit_mask]
             total_n_tracks_valid_hits_chunk = track_candidates_chunk_valid_hits.shape[0]
-- 
2.43.0


From 00bd9e488ec8a7123c196b3db0e338d2969afc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 71/86] fix: plots of the Kalman alignment without track chi2
 limit

---
 beam_telescope_analysis/tools/plot_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 225910c..4f9c474 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -2786,7 +2786,8 @@ def plot_kf_alignment(output_alignment_file, telescope, output_pdf_file):
             ax = fig.add_subplot(111)
             ax.hist(track_chi2, bins=np.linspace(0.0, 100.0, 200))
             ax.set_xlim(0.0, 100.0)
-            ax.axvline(x=max_track_chi2, ls='--', color='grey')
+            if max_track_chi2:
+                ax.axvline(x=max_track_chi2, ls='--', color='grey')
             ax.set_xlabel(r'Track $\chi^2$/ndf')
             ax.set_ylabel('#')
             ax.grid()
@@ -2798,7 +2799,8 @@ def plot_kf_alignment(output_alignment_file, telescope, output_pdf_file):
             ax = fig.add_subplot(111)
             ax.hist(track_chi2, bins=np.linspace(0.0, 20.0, 200))
             ax.set_xlim(0.0, 20.0)
-            ax.axvline(x=max_track_chi2, ls='--', color='grey')
+            if max_track_chi2:
+                ax.axvline(x=max_track_chi2, ls='--', color='grey')
             ax.set_xlabel(r'Track $\chi^2$/ndf')
             ax.set_ylabel('#')
             ax.grid()
-- 
2.43.0


From 5fd28f5f8cc8d73cdca3af3242ecb1b4d8090bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 72/86] fix: alignment with fixed parameters solves only for
 the free ones

---
 beam_telescope_analysis/dut_alignment.py | 29 ++++++++----------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 880ab79..dc6a50e 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1902,28 +1902,19 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
                     #     else:
                     #         tot_matr = np.vstack([tot_matr, matr])
 
-                    # SVD
-                    u, s, v = np.linalg.svd(tot_matr, full_matrices=False)
-
-                    diag = np.diag(s ** -1)
-                    tot_matr_inv = np.dot(v.T, np.dot(diag, u.T))
-                    omega_b_dot = np.dot(tot_matr_inv, -lin_alpha * tot_b)
                     # Some alignment parameters can be fixed to initial values
-                    # If parameter is not in list, set infinitesimal change to zero
+                    # If parameter is not in list, it is not part of the equation system (no infinitesimal change)
                     # Note: An impact on the rotation parameters cannot be completely
                     #       avoided because of the orthogonalization of the rotation matrix
-                    if 'translation_x' not in select_alignment_parameters[index]:
-                        omega_b_dot[3] = 0.0
-                    if 'translation_y' not in select_alignment_parameters[index]:
-                        omega_b_dot[4] = 0.0
-                    if 'translation_z' not in select_alignment_parameters[index]:
-                        omega_b_dot[5] = 0.0
-                    if 'rotation_alpha' not in select_alignment_parameters[index]:
-                        omega_b_dot[0] = 0.0
-                    if 'rotation_beta' not in select_alignment_parameters[index]:
-                        omega_b_dot[1] = 0.0
-                    if 'rotation_gamma' not in select_alignment_parameters[index]:
-                        omega_b_dot[2] = 0.0
+                    free_parameters = [parameter in select_alignment_parameters[index] for parameter in ['rotation_alpha', 'rotation_beta', 'rotation_gamma', 'translation_x', 'translation_y', 'translation_z']]
+                    omega_b_dot = np.zeros(6, dtype=np.float64)
+                    if any(free_parameters):
+                        # SVD
+                        u, s, v = np.linalg.svd(tot_matr[:, free_parameters], full_matrices=False)
+
+                        diag = np.diag(s ** -1)
+                        tot_matr_inv = np.dot(v.T, np.dot(diag, u.T))
+                        omega_b_dot[free_parameters] = np.dot(tot_matr_inv, -lin_alpha * tot_b)
 
                     translation_old2 = translation_old
                     rotation_old2 = rotation_old
-- 
2.43.0


From 7056ef661975c40083fb030b6b9465bcffaf63a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 73/86] fix: automatic event number offset after a file with a
 smaller manual offset

---
 beam_telescope_analysis/tools/data_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8c7ce7b..f56dbd5 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -100,7 +100,7 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
                         if table.nrows > 0:
-                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                            last_event_numbers[table.name] = max(last_event_numbers[table.name], data_chunk[-1]['event_number'])
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From 523bc3afab383333746f55461e73bc40634a6d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 74/86] fix: efficiency plots with current matplotlib

Width and height of a rectangle have to be numbers, calculate_efficiency failed with plot=True.
---
 beam_telescope_analysis/tools/plot_utils.py | 44 ++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 4f9c474..e6b240f 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1318,7 +1318,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     ax = fig.add_subplot(111)
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color='r')
     _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, points=pixel_center_data, show_points=True, line_width=mesh_line_width, line_alpha=1.0, line_color=mesh_color, point_size=mesh_point_size, point_alpha=1.0, point_color=mesh_color)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1333,7 +1333,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_hits_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_hits_2d_hist_masked.T, hist_extent, title='Hit density\nfor %s\n(%d Hits)' % (actual_dut.name, n_hits), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1345,7 +1345,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_tracks_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_tracks_2d_hist_masked.T, hist_extent, title='Track density\nfor %s\n(%d Tracks)' % (actual_dut.name, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1357,7 +1357,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_tracks_with_hit_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_tracks_with_hit_2d_hist_masked.T, hist_extent, title='Track density with associated hit\nfor %s\n(%d Tracks)' % (actual_dut.name, n_tracks_with_hit), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1383,7 +1383,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         select_bins &= y_meshgrid <= max(plot_range[1])
         _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, points=pixel_center_data, show_points=True, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color, point_size=mesh_point_size, point_alpha=mesh_alpha, point_color=mesh_color)
         ax.quiver(x_meshgrid[select_bins], y_meshgrid[select_bins], np.nan_to_num(stat_2d_x_residuals_hist[select_bins]), np.nan_to_num(stat_2d_y_residuals_hist[select_bins]), angles='xy', scale_units='xy', scale=1.0, pivot='tail', minshaft=2.0, width=0.001)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_title('Residuals\nfor %s' % actual_dut.name)
         ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
@@ -1450,7 +1450,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         effective_color_2d = color_indices[color_index_array[effective_pixels_2d]]
         effective_color_2d = np.ma.masked_where(effective_pixels_2d == -1, effective_color_2d)
         plot_2d_pixel_hist(fig, ax, effective_color_2d.T, hist_extent, title='Effective pixel locations\nfor %s' % actual_dut.name, x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=1.0, cmap=cmap, show_colorbar=False)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
         ax.set_ylabel(r"row [$\mathrm{\mu}$m]")
@@ -1524,7 +1524,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             effective_color_2d = colors[color_index_array[effective_pixels_2d]]
             effective_color_2d = np.ma.masked_where(effective_pixels_2d == -1, effective_color_2d)
             plot_2d_pixel_hist(fig, ax, effective_color_2d.T, hist_extent, title='Effective pixel locations\nfor %s' % actual_dut.name, x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=1.0, cmap=cmap, show_colorbar=False)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
             ax.set_ylabel(r"row [$\mathrm{\mu}$m]")
@@ -1560,7 +1560,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = hist_residuals_indices[-1] + 1
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, stat_2d_residuals_hist.T, hist_extent, title='Mean 2D residuals\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1582,7 +1582,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     z_max = hist_charge_indices[-1] + 1
     plot_2d_pixel_hist(fig, ax, stat_2d_charge_hist.T, hist_extent, title='Mean charge\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1619,7 +1619,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_frame_hist.max()
     z_min = stat_2d_frame_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_frame_hist.T, hist_extent, title='Mean frame\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1642,7 +1642,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     cbar.set_ticklabels(['1', '2', '3', '4'])
     cbar.set_label("cluster size")
     # cbar.ax.tick_params(length=0)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1669,7 +1669,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_total_angle_hist.max()
     z_min = stat_2d_total_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_total_angle_hist.T, hist_extent, title='Mean total track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1696,7 +1696,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_alpha_angle_hist.max()
     z_min = stat_2d_alpha_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_alpha_angle_hist.T, hist_extent, title='Mean alpha track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1723,7 +1723,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_beta_angle_hist.max()
     z_min = stat_2d_beta_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_beta_angle_hist.T, hist_extent, title='Mean beta track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1736,7 +1736,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         z_min = 0.0
         plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
         _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, show_points=False, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlim(plot_range[0])
         ax.set_ylim(plot_range[1])
@@ -1748,7 +1748,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
         z_min = 0.0
         plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlim(plot_range[0])
         ax.set_ylim(plot_range[1])
@@ -1889,7 +1889,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             z_min = 0.0
             plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
             for region_index, region in enumerate(efficiency_regions):
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(region[0][1] - region[0][0]), height=np.abs(region[1][1] - region[1][0]), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1900,7 +1900,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 else:
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlim(plot_range[0])
             ax.set_ylim(plot_range[1])
@@ -1913,7 +1913,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             z_min = 0.0
             plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
             for region_index, region in enumerate(efficiency_regions):
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(region[0][1] - region[0][0]), height=np.abs(region[1][1] - region[1][0]), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1925,7 +1925,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
             _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, show_points=False, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlim(plot_range[0])
             ax.set_ylim(plot_range[1])
@@ -1946,7 +1946,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 z_min = 0.0
                 plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Region %d%s: Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
                 region = efficiency_regions[region_index]
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(region[0][1] - region[0][0]), height=np.abs(region[1][1] - region[1][0]), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1957,7 +1957,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 else:
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
-                rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(dut_extent[1] - dut_extent[0]), height=np.abs(dut_extent[3] - dut_extent[2]), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 ax.set_xlim(plot_range[0])
                 ax.set_ylim(plot_range[1])
-- 
2.43.0


From 7de3e47c3b6ef27d76f3a0e493c25b1bcb991ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 75/86] fix: plot of a map with only zeros

---
 beam_telescope_analysis/tools/plot_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index e6b240f..d6f7750 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -97,6 +97,8 @@ def plot_2d_pixel_hist(fig, ax, hist2d, plot_range, title=None, x_axis_title=Non
     # Check if z_max and z_min are not the same (since this causes plotting error)
     if z_max == z_min:
         z_min = 0.0
+    if z_max == z_min:
+        z_max = 1.0
     im = ax.imshow(hist2d, interpolation='none', origin='lower', aspect=aspect, extent=plot_range, cmap=cmap, clim=(z_min, z_max))
     if plot_projection:  # Plot projection on top of axes
         # Calculate slices
-- 
2.43.0


From abf4242c7b85837ffceff67ca7f381c3a8ecbe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 76/86] fix: plots of files with stored arguments

The group with the arguments is no data.
---
 beam_telescope_analysis/tools/plot_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index d6f7750..bfceb93 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -325,8 +325,7 @@ def plot_tracks_per_event(input_tracks_file, output_pdf_file=None):
             except tb.NoSuchNodeError:  # data has fitted tracks
                 fitted_tracks = True
 
-            for node in input_file_h5.root:
-
+            for node in input_file_h5.iter_nodes(input_file_h5.root, classname='Table'):
                 table_events = node[:]['event_number']
 
                 events, event_count = np.unique(table_events, return_counts=True)
@@ -554,7 +553,7 @@ def plot_correlations(input_correlation_file, output_pdf_file=None, dut_names=No
 
     with PdfPages(output_pdf_file, keep_empty=False) as output_pdf:
         with tb.open_file(input_correlation_file, mode="r") as in_file_h5:
-            for node in in_file_h5.root:
+            for node in in_file_h5.iter_nodes(in_file_h5.root, classname='Leaf'):
                 try:
                     indices = re.findall(r'\d+', node.name)
                     ref_index = int(indices[0])
@@ -645,7 +644,7 @@ def plot_checks(input_corr_file, output_pdf_file=None):
 
     with PdfPages(output_pdf_file) as output_pdf:
         with tb.open_file(input_corr_file, mode="r") as in_file_h5:
-            for node in in_file_h5.root:
+            for node in in_file_h5.iter_nodes(in_file_h5.root, classname='Leaf'):
                 data = node[:]
 
                 if np.all(data <= 0):
@@ -852,7 +851,7 @@ def plot_track_chi2(input_tracks_file, output_pdf_file=None, dut_names=None, chu
 
     with PdfPages(output_pdf_file) as output_pdf:
         with tb.open_file(input_tracks_file, mode='r') as in_file_h5:
-            for node in in_file_h5.root:
+            for node in in_file_h5.iter_nodes(in_file_h5.root, classname='Table'):
                 try:
                     actual_dut_index = int(re.findall(r'\d+', node.name)[-1])
                     if dut_names is not None:
-- 
2.43.0


From 991e37e74cad7be4bd0b4cef0a42d6d0d49e7176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 77/86] fix: y axis of density, charge and residual maps

The first row of the histogram has the lowest y position, it was drawn at the highest one.
---
 beam_telescope_analysis/result_analysis.py  | 4 ++--
 beam_telescope_analysis/tools/plot_utils.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index d622a89..1c098b9 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -567,7 +567,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                 z_max = np.ceil(np.ma.median(stat_2d_residuals_hist_masked) + 3 * np.ma.std(stat_2d_residuals_hist_masked) + 1)
                 plot_utils.plot_2d_map(
                     hist2d=stat_2d_residuals_hist_masked.T,
-                    plot_range=[dut_x_size[0], dut_x_size[1], dut_y_size[1], dut_y_size[0]],
+                    plot_range=[dut_x_size[0], dut_x_size[1], dut_y_size[0], dut_y_size[1]],
                     title='2D average residuals for %s' % actual_dut.name,
                     x_axis_title=r'X [$\mathrm{\mu}$m]',
                     y_axis_title=r'Y [$\mathrm{\mu}$m]',
@@ -581,7 +581,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                 z_max = np.ceil(np.ma.median(count_2d_hist_masked) + 3 * np.ma.std(count_2d_hist_masked) + 1)
                 plot_utils.plot_2d_map(
                     hist2d=count_2d_hist_masked.T,
-                    plot_range=[dut_x_size[0], dut_x_size[1], dut_y_size[1], dut_y_size[0]],
+                    plot_range=[dut_x_size[0], dut_x_size[1], dut_y_size[0], dut_y_size[1]],
                     title='2D occupancy for %s' % actual_dut.name,
                     x_axis_title=r'X [$\mathrm{\mu}$m]',
                     y_axis_title=r'Y [$\mathrm{\mu}$m]',
diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index bfceb93..55f2202 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1093,7 +1093,7 @@ def plot_track_density(telescope_configuration, input_tracks_file, select_duts,
 
                 plot_2d_map(
                     hist2d=hist_tracks.T,
-                    plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, dut_y_size / 2.0, -dut_y_size / 2.0],
+                    plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, -dut_y_size / 2.0, dut_y_size / 2.0],
                     title='Track density for %s (%d Tracks)' % (actual_dut.name, n_tracks),
                     x_axis_title=r'Column position [$\mathrm{\mu}$m]',
                     y_axis_title=r'Row position [$\mathrm{\mu}$m]',
@@ -1103,7 +1103,7 @@ def plot_track_density(telescope_configuration, input_tracks_file, select_duts,
 
                 plot_2d_map(
                     hist2d=hist_hits.T,
-                    plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, dut_y_size / 2.0, -dut_y_size / 2.0],
+                    plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, -dut_y_size / 2.0, dut_y_size / 2.0],
                     title='Hit density for %s (%d Hits)' % (actual_dut.name, n_hits),
                     x_axis_title=r'Column position [$\mathrm{\mu}$m]',
                     y_axis_title=r'Row position [$\mathrm{\mu}$m]',
@@ -1197,7 +1197,7 @@ def plot_charge_distribution(telescope_configuration, input_tracks_file, select_
 
                 plot_2d_map(
                     hist2d=stat_track_charge_hist.T,
-                    plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, dut_y_size / 2.0, -dut_y_size / 2.0],
+                    plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, -dut_y_size / 2.0, dut_y_size / 2.0],
                     title='Mean charge of tracks for %s (%d Tracks)' % (actual_dut.name, n_tracks),
                     x_axis_title=r'Column position [$\mathrm{\mu}$m]',
                     y_axis_title=r'Row position [$\mathrm{\mu}$m]',
@@ -1207,7 +1207,7 @@ def plot_charge_distribution(telescope_configuration, input_tracks_file, select_
 
                 plot_2d_map(
                     hist2d=stat_hits_charge_hist.T,
-                    plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, dut_y_size / 2.0, -dut_y_size / 2.0],
+                    plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, -dut_y_size / 2.0, dut_y_size / 2.0],
                     title='Mean charge of hits for %s (%d Hits)' % (actual_dut.name, n_hits),
                     x_axis_title=r'Column position [$\mathrm{\mu}$m]',
                     y_axis_title=r'Row position [$\mathrm{\mu}$m]',
-- 
2.43.0


From 7711fac31ef667f4c8a2ea1f61ccd159eb878ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 78/86] fix: event plot draws tracks through all devices

The tracks were drawn in the wrong range of z positions.
---
 beam_telescope_analysis/tools/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 55f2202..b8ad744 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -790,7 +790,7 @@ def plot_events(telescope_configuration, input_tracks_file, select_duts, event_r
                                 rotation_alpha=telescope[max_z_dut_index].rotation_alpha,
                                 rotation_beta=telescope[max_z_dut_index].rotation_beta,
                                 rotation_gamma=telescope[max_z_dut_index].rotation_gamma) * 1.e-3
-                            linepts = offse_min_z_dut + slope * np.mgrid[-offse_min_z_dut[0, 2] + 10:-offset_max_z_dut[0, 2] - 10:2j][:, np.newaxis]
+                            linepts = offse_min_z_dut + slope / slope[0, 2] * np.mgrid[-10:offset_max_z_dut[0, 2] - offse_min_z_dut[0, 2] + 10:2j][:, np.newaxis]
                             no_fit = False
                         else:
                             no_fit = True
-- 
2.43.0


From 978910d19cb5afb5e6cf89e90a6e59cb4638dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 79/86] fix: track angles in the second plot of the total
 angles were multiplied by 1000

---
 beam_telescope_analysis/tools/plot_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index b8ad744..fb8421f 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1652,7 +1652,6 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     fig = Figure()
     _ = FigureCanvas(fig)
     ax = fig.add_subplot(111)
-    count_1d_total_angle_hist_edges = count_1d_total_angle_hist_edges * 1000.0  # convert to mrad
     bin_centers = (count_1d_total_angle_hist_edges[1:] + count_1d_total_angle_hist_edges[:-1]) / 2.0
     width = np.diff(bin_centers)[0]
     ax.bar(x=bin_centers, height=count_1d_total_angle_hist, width=width, align='center')
-- 
2.43.0


From da774df5594ccc08be70716f4545e0770541b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 80/86] fix: efficiency plots do not change the stored track
 angle bins of the regions

---
 beam_telescope_analysis/tools/plot_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index fb8421f..ad0c8fe 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -2064,8 +2064,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_total_angle_hist_edges[region_index] = efficiency_regions_count_1d_total_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_total_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_total_angle_hist_edges[region_index][:-1]) / 2.0
+                angle_hist_edges = efficiency_regions_count_1d_total_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (angle_hist_edges[1:] + angle_hist_edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_total_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_total_angle_hist[region_index]).astype(np.float32), width=width, align='center')
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
@@ -2078,8 +2078,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_alpha_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_alpha_angle_hist_edges[region_index][:-1]) / 2.0
+                angle_hist_edges = efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (angle_hist_edges[1:] + angle_hist_edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_alpha_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_alpha_angle_hist[region_index]).astype(np.float32), align='center', width=width)
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
@@ -2092,8 +2092,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = efficiency_regions_count_1d_beta_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_beta_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_beta_angle_hist_edges[region_index][:-1]) / 2.0
+                angle_hist_edges = efficiency_regions_count_1d_beta_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (angle_hist_edges[1:] + angle_hist_edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_beta_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_beta_angle_hist[region_index]).astype(np.float32), width=width, align='center')
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
-- 
2.43.0


From 9410a220040554b66a95409f160cf20a5c75f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 81/86] fix: y axis of purity maps

The first row of the histogram has the lowest y position, it was drawn at the highest one.
---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 1c098b9..be7405a 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2267,7 +2267,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     purity_sensor,
                     actual_dut_index,
                     minimum_hit_density,
-                    hist_extent=[actual_dut.x_extent()[0], actual_dut.x_extent()[1], actual_dut.y_extent()[1], actual_dut.y_extent()[0]],
+                    hist_extent=[actual_dut.x_extent()[0], actual_dut.x_extent()[1], actual_dut.y_extent()[0], actual_dut.y_extent()[1]],
                     cut_distance=cut_distance,
                     output_pdf=output_pdf)
 
-- 
2.43.0


From 6f76daf4f2790157674f97e6257a75631270c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 82/86] fix: number of pure hits in the title of the purity
 plot

The number of bins with pure hits was shown.
---
 beam_telescope_analysis/tools/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index ad0c8fe..f421730 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -2455,7 +2455,7 @@ def purity_plots(telescope, pure_hit_hist, hit_hist, purity, purity_sensor, actu
     if not output_pdf:
         return
     # get number of entries for every histogram
-    n_pure_hit_hist = np.count_nonzero(pure_hit_hist)
+    n_pure_hit_hist = np.sum(pure_hit_hist)
     n_hits_hit_density = np.sum(hit_hist)
     n_hits_purity = np.count_nonzero(purity)
 
-- 
2.43.0


From 44640ed43a041b8a73f250b1204e711aada6a625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:51 +0000
Subject: [PATCH 83/86] fix: correction of covariance matrices in the Kalman
 Filter distorts slopes

Positions and slopes have different units. The correction of a negative
eigenvalue was of the size of the rounding error of the positions, which is
not small compared to the slope variances for high energies and long lever
arms.
---
 beam_telescope_analysis/tools/kalman.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index c5c63f9..46d5525 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -520,9 +520,14 @@ def check_covariance_matrix(cov):
     Cannot be jitted since jitted np.linalg.eigvalsh only supports 2D arrays.
     '''
     # Check for positive semi-definite covariance matrix. In case they are not psd, make them psd.
-    if not np.all(np.linalg.eigvalsh(cov) >= 0.0):
-        non_psd_selection = np.any(np.linalg.eigvalsh(cov) < 0.0, axis=1)
-        cov[non_psd_selection] = _make_matrix_psd(cov[non_psd_selection])
+    # Work on the correlations, since positions and slopes differ by many orders of magnitude.
+    variances = np.diagonal(cov, axis1=1, axis2=2)
+    sigma = np.sqrt(np.where(variances > 0.0, variances, 1.0))
+    scale = sigma[:, :, np.newaxis] * sigma[:, np.newaxis, :]
+    corr = cov / scale
+    if not np.all(np.linalg.eigvalsh(corr) >= 0.0):
+        non_psd_selection = np.any(np.linalg.eigvalsh(corr) < 0.0, axis=1)
+        cov[non_psd_selection] = _make_matrix_psd(corr[non_psd_selection]) * scale[non_psd_selection]
 
 
 @njit(cache=True)
-- 
2.43.0


From 0ab94f6918a648aa34355466c4b4c81db745c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 84/86] fix: plotting of the track density without tracks or
 hits inside the device

---
 beam_telescope_analysis/tools/plot_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index f421730..2e0ae21 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1083,14 +1083,14 @@ def plot_track_density(telescope_configuration, input_tracks_file, select_duts,
                         hist_tracks += stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
                         hist_hits += stats.binned_statistic_2d(x=hit_x_local, y=hit_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
 
-                # For better readability allow masking of entries that are zero
-                hist_tracks = np.ma.masked_equal(hist_tracks, 0)
-                hist_hits = np.ma.masked_equal(hist_hits, 0)
-
                 # Get number of hits / tracks
                 n_tracks = np.sum(hist_tracks)
                 n_hits = np.sum(hist_hits)
 
+                # For better readability allow masking of entries that are zero
+                hist_tracks = np.ma.masked_equal(hist_tracks, 0)
+                hist_hits = np.ma.masked_equal(hist_hits, 0)
+
                 plot_2d_map(
                     hist2d=hist_tracks.T,
                     plot_range=[-dut_x_size / 2.0, dut_x_size / 2.0, -dut_y_size / 2.0, dut_y_size / 2.0],
-- 
2.43.0


From 723ef508efd0fa0cd3baf71f8800ee8d4a2220a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 85/86] fix: plotting of cluster histograms for chunks without
 hits

---
 beam_telescope_analysis/tools/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 2e0ae21..0318842 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -458,7 +458,7 @@ def plot_cluster_hists(telescope_configuration=None, input_cluster_file=None, in
                             cluster_n_hits = cluster_n_hits[valid_hits]
                             cluster_shape = cluster_shape[valid_hits]
 
-                        max_cluster_size = np.max(cluster_n_hits)
+                        max_cluster_size = np.max(cluster_n_hits, initial=0)
                         total_n_hits += np.sum(cluster_n_hits)
                         total_n_clusters += cluster_n_hits.shape[0]
                         # limit cluster shape histogram to cluster size 4x4
-- 
2.43.0


From 67c71f6ca4ba9aec8e5db829a849549e981c573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:43 +0000
Subject: [PATCH 86/86] fix: plotting of the charge distribution for chunks
 without hits

---
 beam_telescope_analysis/tools/plot_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 0318842..45c637b 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1156,6 +1156,8 @@ def plot_charge_distribution(telescope_configuration, input_tracks_file, select_
                     hit_x_local, hit_y_local = hit_x_local[select_hits], hit_y_local[select_hits]
                     intersection_x_local, intersection_y_local = intersection_x_local[select_hits], intersection_y_local[select_hits]
                     charge = charge[select_hits]
+                    if charge.shape[0] == 0:  # nothing to add
+                        continue
 
                     if initialize:
                         initialize = False
@@ -1184,6 +1186,10 @@ def plot_charge_distribution(telescope_configuration, input_tracks_file, select_
                         count_hits_charge_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=hit_x_local, y=hit_y_local, values=charge, statistic='count', bins=hist_2d_edges)
                         stat_hits_charge_hist, count_hits_charge_hist = np.ma.average(a=np.stack([stat_hits_charge_hist, stat_hits_charge_hist_tmp]), axis=0, weights=np.stack([count_hits_charge_hist, count_hits_charge_hist_tmp]), returned=True)
 
+                if initialize:
+                    logging.warning('Cannot plot mean charge for %s: no hits with charge', actual_dut.name)
+                    continue
+
                 # For better readability allow masking of entries that are zero
                 stat_track_charge_hist = np.ma.masked_where(count_track_charge_hist == 0, stat_track_charge_hist)
                 stat_hits_charge_hist = np.ma.masked_where(count_hits_charge_hist == 0, stat_hits_charge_hist)
-- 
2.43.0

