#include "system.h"
#include <algorithm>
#include <stdexcept>
#include "voro++.hh"
#include "string.h"
using namespace voro;

static double less_than_cell(double d, double length){
    return (length > 0) ? d - length*trunc(d/length) : d;
}

Atom::Atom( vector<double> pos, int idd, int typ){
    if (pos.size() < 3){
        throw invalid_argument("position should have three components");
    }
    posx = pos[0];
    posy = pos[1];
    posz = pos[2];
    id = idd;
    type = typ;
    ghost = 0;
    belongsto = -1;
    issolid = 0;
    issurface = 0;
    loc = 0;
    isneighborset = 0;
    n_neighbors = 0;
    lcluster = 0;
    head = -1;
    entropy = 0;
    avg_entropy = 0;
    energy = 0;
    avg_energy = 0;
    condition = 0;
    mask = false;
    cutoff = 0;
    sii = 0;
    disorder = 0;
    avgdisorder = 0;
    frenkelnumber = 0;
    avq6q6 = 0;
    structure = 0;
    n3 = 0;
    n4 = 0;
    n5 = 0;
    n6 = 0;
    volume = 0;
    avgvolume = 0;
    angular = 0;
    avg_angular = 0;
    centrosymmetry = 0;
    lcutsmall = 0;
    lcutlarge = 0;
    lneigh = 0;
    sigma = 0;
    rho = 0;
    rstart = 0;
    rstop = 0;
    h = 0;
    kb = 0;
    for (int tn = 0; tn<MAXNUMBEROFNEIGHBORS; tn++){
        neighbors[tn] = -1;
        neighbordist[tn] = -1.0;
        neighborweight[tn] = -1.0;
        facevertices[tn] = -1;
        faceverticenumbers[tn] = -1;
        faceperimeters[tn] = -1.0;
        sij[tn] = -1.0;
        masks[tn] = -1;
        n_diffx[tn] = 0;
        n_diffy[tn] = 0;
        n_diffz[tn] = 0;
        n_r[tn] = 0;
        n_phi[tn] = 0;
        n_theta[tn] = 0;
    }
    for (int tn = 0; tn<11; tn++){
        q[tn] = -1;
        aq[tn] = -1;
        for (int tnn =0; tnn<25; tnn++){
            realq[tn][tnn] = -1;
            imgq[tn][tnn] = -1;
            arealq[tn][tnn] = -1;
            aimgq[tn][tnn] = -1;
        }
    }
    for (int tn = 0; tn<13; tn++){
        realQ6[tn] = 0;
        imgQ6[tn] = 0;
    }
    for (int tn = 0; tn<4; tn++){
        nn1[tn] = 0;
    }
}

System::System(){
    nop = 0;
    ghost_nop = 0;
    real_nop = 0;
    triclinic = 0;
    usecells = 0;
    filter = 0;
    maxclusterid = -1;
    alpha = 1;
    voronoiused = 0;
    solidq = 6;
    criteria = 0;
    comparecriteria = 0;
    neighbordistance = 0;
    for(int i=0; i<3; i++){
        for(int j=0; j<3; j++){
            box[i][j] = 0.0;
            rot[i][j] = 0.0;
            rotinv[i][j] = 0.0;
        }
        boxdims[i][0] = 0.0;
        boxdims[i][1] = 0.0;
    }
    boxx = 0;
    boxy = 0;
    boxz = 0;
    nx = 0;
    ny = 0;
    nz = 0;
    total_cells = 0;
    cells = NULL;
    reqdqs = NULL;
    lenqs = 0;
    reqdaqs = NULL;
    lenaqs = 0;
    minfrenkel = 0;
    threshold = 0;
    avgthreshold = 0;
    face_cutoff = 0;
    lattice_constant = 0;
}

void System::set_up_cells(){
      int si,sj,sk, maincell, subcell;
      vector<int> cc;
      nx = boxx/neighbordistance;
      ny = boxy/neighbordistance;
      nz = boxz/neighbordistance;
      double lx = boxx/nx;
      double ly = boxy/ny;
      double lz = boxz/nz;
      total_cells = nx*ny*nz;
      delete[] cells;
      cells = new cell[total_cells];
      for(int i=0; i<nx; i++){
         for(int j=0; j<ny; j++){
           for(int k=0; k<nz; k++){
              maincell = cell_index(i, j, k);
              for(int si=i-1; si<=i+1; si++){
                  for(int sj=j-1; sj<=j+1; sj++){
                      for(int sk=k-1; sk<=k+1; sk++){
                         cc = cell_periodic(si, sj, sk);
                         subcell = cell_index(cc[0], cc[1], cc[2]);
                         cells[maincell].neighbor_cells.emplace_back(subcell);
                      }
                  }
              }
           }
         }
      }
      int cx, cy, cz;
      double dx, dy, dz;
      double ddx, ddy, ddz;
      int ind;
      for(int ti=0; ti<nop; ti++){
          dx = atoms[ti].posx;
          dy = atoms[ti].posy;
          dz = atoms[ti].posz;
          if( abs(dx-0) < 1E-6)
              dx = 0;
          if( abs(dy-0) < 1E-6)
              dy = 0;
          if( abs(dz-0) < 1E-6)
              dz = 0;
          dx = less_than_cell(dx, boxx);
          dy = less_than_cell(dy, boxy);
          dz = less_than_cell(dz, boxz);
          if (dx < 0) dx+=boxx;
          else if (dx >= boxx) dx-=boxx;
          if (dy < 0) dy+=boxy;
          else if (dy >= boxy) dy-=boxy;
          if (dz < 0) dz+=boxz;
          else if (dz >= boxz) dz-=boxz;
          cx = dx/lx;
          cy = dy/ly;
          cz = dz/lz;
          cx = min(max(cx, 0), nx-1);
          cy = min(max(cy, 0), ny-1);
          cz = min(max(cz, 0), nz-1);
          ind = cell_index(cx, cy, cz);
          cells[ind].members.emplace_back(ti);
      }
}

void System::get_all_neighbors_voronoi(){
    voronoiused = 1;
    double d;
    double diffx,diffy,diffz;
    double r,theta,phi;
    int i;
    int ti,id,tnx,tny,tnz, nverts;
    double rx,ry,rz,tsum, fa, vol;
    double x = 0, y = 0, z = 0;
    vector<int> neigh,f_vert, vert_nos;
    vector<double> facearea, v, faceperimeters;
    voronoicell_neighbor c;
    vector< vector<double> > nweights;
    vector< vector<int> > nneighs;
    vector<int> idss;
    double weightsum;
    vector <double> pos;
    pre_container pcon(0.00, boxx, 0.00, boxy, 0.0, boxz, true, true, true);
    for(int i=0; i<nop; i++){
        pos = atoms[i].gx();
        pos = remap_atom(pos);
        pcon.put(i, pos[0], pos[1], pos[2]);
    }
    pcon.guess_optimal(tnx,tny,tnz);
    container con(0.00, boxx, 0.00, boxy, 0.0, boxz, tnx, tny, tnz, true, true, true, nop);
    pcon.setup(con);
    c_loop_all cl(con);
    if (cl.start()) do if(con.compute_cell(c,cl)) {
            ti=cl.pid();
            c.face_areas(facearea);
            c.neighbors(neigh);
            c.face_orders(f_vert);
            c.face_vertices(vert_nos);
            c.vertices(x,y,z,v);
            c.face_perimeters(faceperimeters);
            vol = c.volume();
            tsum = 0;
            vector <double> dummyweights;
            vector <int> dummyneighs;
            weightsum = 0.0;
            for (int i=0; i<facearea.size(); i++){
                weightsum += pow(facearea[i], alpha);
            }
            atoms[ti].volume = vol;
            atoms[ti].vertex_vectors = v;
            atoms[ti].vertex_numbers = vert_nos;
            atoms[ti].cutoff = cbrt(3*vol/(4*3.141592653589793));
            atoms[ti].vertex_positions.clear();
            nverts = int(v.size())/3;
            pos = atoms[ti].gx();
            for(int si=0; si<nverts; si++){
                vector<double> temp;
                int li=0;
                for(int vi=si*3; vi<(si*3+3); vi++){
                    temp.emplace_back(v[vi]+pos[li]);
                    li++;
                }
                atoms[ti].vertex_positions.emplace_back(temp);
            }
            for (int tj=0; tj<neigh.size(); tj++){
                if ((filter == 1) && (atoms[ti].type != atoms[neigh[tj]].type)){
                    continue;
                }
                else if ((filter == 2) && (atoms[ti].type == atoms[neigh[tj]].type)){
                    continue;
                }
                int nn = atoms[ti].n_neighbors;
                if (nn >= MAXNUMBEROFNEIGHBORS){
                    throw out_of_range("too many neighbors");
                }
                atoms[ti].neighbors[nn] = neigh[tj];
                atoms[ti].n_neighbors += 1;
                d = get_abs_distance(ti,neigh[tj],diffx,diffy,diffz);
                atoms[ti].neighbordist[nn] = d;
                atoms[ti].neighborweight[nn] = pow(facearea[tj], alpha)/weightsum;
                atoms[ti].facevertices[nn] = f_vert[tj];
                atoms[ti].faceperimeters[nn] = faceperimeters[tj];
                atoms[ti].n_diffx[nn] = diffx;
                atoms[ti].n_diffy[nn] = diffy;
                atoms[ti].n_diffz[nn] = diffz;
                convert_to_spherical_coordinates(diffx, diffy, diffz, r, phi, theta);
                atoms[ti].n_r[nn] = r;
                atoms[ti].n_phi[nn] = phi;
                atoms[ti].n_theta[nn] = theta;
            }
    } while (cl.inc());
    find_average_volume();
}

// members used above, defined elsewhere
void System::find_average_volume(){}
vector<double> System::remap_atom(vector<double> pos){}
void System::convert_to_spherical_coordinates(double x, double y, double z, double &r, double &phi, double &theta){}
double System::get_abs_distance(int ti, int tj, double &diffx, double &diffy, double &diffz){}
int System::cell_index(int cx, int cy, int cz){}
vector<int> System::cell_periodic(int i, int j, int k){}
vector<double> Atom::gx(){}
