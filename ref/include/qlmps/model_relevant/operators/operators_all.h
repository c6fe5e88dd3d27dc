// SPDX-License-Identifier: LGPL-3.0-only
/*
 * Author: Hao-Xin Wang <wanghaoxin1996@gmail.com>
 * Creation Date: 4/4/2025
 *
 * Description: Centralized header for including all operator-related headers in the QuantumLiquids/UltraDMRG project.
 */

#ifndef QLMPS_MODEL_RELEVANT_OPERATORS_OPERATORS_H
#define QLMPS_MODEL_RELEVANT_OPERATORS_OPERATORS_H

#include "qlmps/model_relevant/operators/spin/spin_one_half_operators.h"

#include "qlmps/model_relevant/operators/fermion/hubbard_operators.h"
#include "qlmps/model_relevant/operators/fermion/tJ_operators.h"


#endif // QLMPS_MODEL_RELEVANT_OPERATORS_OPERATORS_H