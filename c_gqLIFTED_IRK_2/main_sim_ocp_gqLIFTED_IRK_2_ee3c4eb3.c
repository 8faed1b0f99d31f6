/*
 * Copyright (c) The acados authors.
 *
 * This file is part of acados.
 *
 * The 2-Clause BSD License
 *
 * Redistribution and use in source and binary forms, with or without
 * modification, are permitted provided that the following conditions are met:
 *
 * 1. Redistributions of source code must retain the above copyright notice,
 * this list of conditions and the following disclaimer.
 *
 * 2. Redistributions in binary form must reproduce the above copyright notice,
 * this list of conditions and the following disclaimer in the documentation
 * and/or other materials provided with the distribution.
 *
 * THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
 * AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
 * IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
 * ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR CONTRIBUTORS BE
 * LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR
 * CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF
 * SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS
 * INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN
 * CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE)
 * ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 * POSSIBILITY OF SUCH DAMAGE.;
 */


// standard
#include <stdio.h>
#include <stdlib.h>
// acados
#include "acados/utils/print.h"
#include "acados/utils/math.h"
#include "acados_c/sim_interface.h"
#include "acados_sim_solver_ocp_gqLIFTED_IRK_2_ee3c4eb3.h"

#define NX     OCP_GQLIFTED_IRK_2_EE3C4EB3_NX
#define NZ     OCP_GQLIFTED_IRK_2_EE3C4EB3_NZ
#define NU     OCP_GQLIFTED_IRK_2_EE3C4EB3_NU
#define NP     OCP_GQLIFTED_IRK_2_EE3C4EB3_NP


int main()
{
    int status = 0;
    ocp_gqLIFTED_IRK_2_ee3c4eb3_sim_solver_capsule *capsule = ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_sim_solver_create_capsule();
    status = ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_sim_create(capsule);

    if (status)
    {
        printf("acados_create() returned status %d. Exiting.\n", status);
        exit(1);
    }

    sim_config *acados_sim_config = ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_get_sim_config(capsule);
    sim_in *acados_sim_in = ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_get_sim_in(capsule);
    sim_out *acados_sim_out = ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_get_sim_out(capsule);
    void *acados_sim_dims = ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_get_sim_dims(capsule);

    // initial condition
    double x_current[NX];
    x_current[0] = 0.0;

  
    x_current[0] = 0.0;
    
  


    // initial value for control input
    double u0[NU];
    u0[0] = 0.0;

  


    int n_sim_steps = 3;
    // solve ocp in loop
    for (int ii = 0; ii < n_sim_steps; ii++)
    {
        // set inputs
        sim_in_set(acados_sim_config, acados_sim_dims,
            acados_sim_in, "x", x_current);
        sim_in_set(acados_sim_config, acados_sim_dims,
            acados_sim_in, "u", u0);

        // solve
        status = ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_sim_solve(capsule);
        if (status != ACADOS_SUCCESS)
        {
            printf("acados_solve() failed with status %d.\n", status);
        }

        // get outputs
        sim_out_get(acados_sim_config, acados_sim_dims,
               acados_sim_out, "x", x_current);

    

        // print solution
        printf("\nx_current, %d\n", ii);
        for (int jj = 0; jj < NX; jj++)
        {
            printf("%e\n", x_current[jj]);
        }
    }

    printf("\nPerformed %d simulation steps with acados integrator successfully.\n\n", n_sim_steps);

    // free solver
    status = ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_sim_free(capsule);
    if (status) {
        printf("ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_sim_free() returned status %d. \n", status);
    }

    ocp_gqLIFTED_IRK_2_ee3c4eb3_acados_sim_solver_free_capsule(capsule);

    return status;
}
