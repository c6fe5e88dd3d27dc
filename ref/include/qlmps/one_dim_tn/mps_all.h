// SPDX-License-Identifier: LGPL-3.0-only
/*
* Author: Hao-Xin Wang <wanghaoxin1996@gmail.com>
* Creation Date: 2020-12-17 14:19
*
* Description: QuantumLiquids/UltraDMRG project. All staff for using matrix product state (MPS).
*/

/**w
@file mps_all.h
@brief All staff for using matrix product state (MPS).
*/
#ifndef QLMPS_ONE_DIM_TN_MPS_ALL_H
#define QLMPS_ONE_DIM_TN_MPS_ALL_H


// Generic MPS class
#include "qlmps/one_dim_tn/mps/mps.h"

// Finite MPS related
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_init.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h"
#include "qlmps/one_dim_tn/mps/finite_mps/finite_mps_ops.h"

#endif /* ifndef QLMPS_ONE_DIM_TN_MPS_ALL_H */
