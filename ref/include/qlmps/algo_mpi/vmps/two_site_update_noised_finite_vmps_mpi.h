// SPDX-License-Identifier: LGPL-3.0-only

/*
* Author: Hao-Xin Wang <wanghaoxin1996@gmail.com>
* Creation Date: 2021-08-31
*
* Description: QuantumLiquids/UltraDMRG project. Two-site update finite size vMPS with MPI Paralization
*/

/**
@file two_site_update_noised_finite_vmps_mpi.h
@brief Two-site update noised finite size vMPS with MPI Paralization
*/
#ifndef QLMPS_ALGO_MPI_VMPS_TWO_SITE_UPDATE_NOISED_FINITE_VMPS_MPI_H
#define QLMPS_ALGO_MPI_VMPS_TWO_SITE_UPDATE_NOISED_FINITE_VMPS_MPI_H

#include <cstdlib>
#include "qlmps/algorithm/lanczos_params.h"                        //LanczosParams
#include "qlmps/algorithm/finite_vmps_sweep_params.h"      //TwoSiteMPIVMPSSweepParams


#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h"

#endif