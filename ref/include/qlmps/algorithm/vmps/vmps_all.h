/*
* Author: Haoxin Wang <wanghaoxin1996@gmail.com>
* Creation Date: 2023-08-12
*
* Description: QuantumLiquids/UltraDMRG project. Finite size VMPS algorithm all.
*/


#ifndef QLMPS_ALGORITHM_VMPS_ALL_H
#define QLMPS_ALGORITHM_VMPS_ALL_H

#include "qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h"              // TwoSiteFiniteVMPS
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"   // TwoSiteFiniteVMPS
#include "qlmps/algorithm/vmps/single_site_update_finite_vmps_impl.h"      // SingleSiteFiniteVMPS

#endif //QLMPS_ALGORITHM_VMPS_ALL_H
