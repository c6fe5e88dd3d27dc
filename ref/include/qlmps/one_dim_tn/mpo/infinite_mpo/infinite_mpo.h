// SPDX-License-Identifier: LGPL-3.0-only
/*
* Author: Hao-Xin Wang <wanghaoxin1996@gmail.com>
* Creation Date: 2024-02-14
*
* Description: QuantumLiquids/UltraDMRG project. Infinite MPO class
*/

#ifndef QLMPS_ONE_DIM_TN_MPO_INFINITE_MPO_INFINITE_MPO_H
#define QLMPS_ONE_DIM_TN_MPO_INFINITE_MPO_INFINITE_MPO_H

#include "qlten/qlten.h"
#include "qlmps/one_dim_tn/framework/ten_vec.h"




#endif //QLMPS_ONE_DIM_TN_MPO_INFINITE_MPO_INFINITE_MPO_H
